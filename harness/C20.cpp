// C20: BMP files, against an independent decoder and encoder.
#include "vp.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include <unistd.h>
using namespace vp;
namespace vp {
const char* kRule = "case = an image of 1, 3 or 4 planes written, decoded by the harness and read back into a used image; or a file encoded by the harness (8, 24, 32 bits, any offset, palette, header version) read whole, cut, or made foreign or unsupported; non-trivial = more than one pixel";

struct Pix { int w = 0, h = 0, p = 0; std::vector<unsigned char> d; unsigned char& at(int x, int y, int k) { return d[((size_t)y * w + x) * p + k]; } };
static Pix grab(const Image& im) {
	Pix r; r.w = im.width(); r.h = im.height(); r.p = im.planes();
	VP_CHECK(im.size() == r.w * r.h * r.p, "image-size", "size() is %d for %dx%dx%d", im.size(), r.w, r.h, r.p);
	for (int y = 0; y < r.h; y++) for (int x = 0; x < r.w; x++) for (int k = 0; k < r.p; k++) r.d.push_back(im(x, y, k));
	return r;
}
static void same_pix(Pix a, Pix b, const char* key, const char* what) {
	VP_CHECK(a.w == b.w && a.h == b.h && a.p == b.p, key, "%s: %dx%dx%d instead of %dx%dx%d", what, a.w, a.h, a.p, b.w, b.h, b.p);
	for (size_t i = 0; i < b.d.size(); i++) VP_CHECK(a.d[i] == b.d[i], key, "%s: pixel (%d,%d) plane %d is %d instead of %d (%dx%dx%d)", what, (int)(i / a.p % a.w), (int)(i / a.p / a.w), (int)(i % a.p), a.d[i], b.d[i], a.w, a.h, a.p);
}
static void dirty_image(Gen& g, Image& im) {
	im.resize(g.i(0, 9), g.i(0, 9), g.i(1, 4));
	for (int k = 0; k < im.size(); k++) im.data()[k] = (unsigned char)g.i(0, 255);
}
static uint32_t u32(const std::string& s, size_t p) { uint32_t v; memcpy(&v, s.data() + p, 4); return v; }
static uint16_t u16(const std::string& s, size_t p) { uint16_t v; memcpy(&v, s.data() + p, 2); return v; }

// independent decoder
static Pix decode(const std::string& s) {
	VP_CHECK(s.size() >= 54, "file-header", "file of %zu bytes", s.size());
	VP_CHECK(s[0] == 'B' && s[1] == 'M', "file-header", "no BM");
	VP_CHECK(u32(s, 2) == s.size(), "file-header", "file size field is %u for %zu bytes", u32(s, 2), s.size());
	uint32_t off = u32(s, 10);
	VP_CHECK(u32(s, 14) == 40, "file-header", "header of %u bytes", u32(s, 14));
	Pix r; r.w = (int)u32(s, 18); r.h = (int)u32(s, 22);
	VP_CHECK(r.w > 0 && r.h > 0, "file-header", "size %dx%d", r.w, r.h);
	VP_CHECK(u16(s, 26) == 1, "file-header", "%d colour planes", u16(s, 26));
	int bpp = u16(s, 28);
	VP_CHECK(bpp == 8 || bpp == 24 || bpp == 32, "file-header", "%d bits", bpp);
	VP_CHECK(u32(s, 30) == 0, "file-header", "compression %u", u32(s, 30));
	r.p = bpp / 8;
	size_t stride = ((size_t)r.w * bpp + 31) / 32 * 4;
	VP_CHECK(u32(s, 34) == 0 || u32(s, 34) == stride * r.h, "file-header", "image size field is %u instead of %zu", u32(s, 34), stride * r.h);
	uint32_t used = u32(s, 46);
	size_t pal = bpp == 8 ? (used ? used : 256) : 0;
	VP_CHECK(off >= 54 + 4 * pal && off + stride * r.h == s.size(), "file-header", "pixels at %u, %zu bytes of them, file of %zu", off, stride * r.h, s.size());
	r.d.resize((size_t)r.w * r.h * r.p);
	for (int y = 0; y < r.h; y++) for (int x = 0; x < r.w; x++) {
		const unsigned char* q = (const unsigned char*)s.data() + off + stride * (r.h - 1 - y) + (size_t)x * r.p;
		if (bpp == 8) {
			VP_CHECK(*q < pal, "file-palette", "index %d out of the palette", *q);
			const unsigned char* c = (const unsigned char*)s.data() + 54 + 4 * *q;
			VP_CHECK(c[0] == c[1] && c[1] == c[2], "file-palette", "palette entry %d is not grey: %d %d %d", *q, c[0], c[1], c[2]);
			r.at(x, y, 0) = c[0];
		} else {
			r.at(x, y, 0) = q[2]; r.at(x, y, 1) = q[1]; r.at(x, y, 2) = q[0];
			if (bpp == 32) r.at(x, y, 3) = q[3];
		}
	}
	return r;
}

static void size(Gen& g, int& w, int& h, bool big) {
	w = g.size(1, big ? 300 : 40, big ? 1100 : 0); h = g.size(1, big ? 300 : 24, big ? 1100 : 0);
	if (big && g.b(0.15)) { w = g.i(2, 40); h = g.i(2, 40); (g.b() ? w : h) = g.b(0.3) ? g.i(32000, 70000) : g.i(2000, 5000); }
	if (g.b(0.05)) w = 1;
	if (g.b(0.05)) h = 1;
}

static void write_case(Ctx& c) {
	Gen& g = c.g;
	int w, h, p = g.b(0.33) ? 1 : g.b() ? 3 : 4;
	size(g, w, h, c.index % 151 == 9);
	Image im;
	if (g.b(0.5)) dirty_image(g, im);
	im.resize(w, h, p);
	int fill = g.i(0, 3);
	for (int k = 0; k < im.size(); k++) im.data()[k] = fill == 0 ? (unsigned char)(k * 7 + 1) : fill == 1 ? 255 : (unsigned char)g.i(0, 255);
	Pix want = grab(im);
	std::string path = c.scratch + "/i.bmp";
	if (g.b()) write_file(path, std::string((size_t)g.i(0, 20000), 'B'));
	VP_CHECK(ImageIoBmp::write(path, &im), "write-refused", "writing a %dx%dx%d image to a writable path reports failure", w, h, p);
	same_pix(grab(im), want, "write-changes", "the written image");
	std::string s;
	VP_CHECK(read_file(path, s), "no-file", "no file after a successful write");
	Pix zero = want;
	if (p == 4) for (size_t k = 3; k < zero.d.size(); k += 4) zero.d[k] = 0;
	same_pix(decode(s), zero, "file-pixels", "decoded file");
	Image r;
	if (g.b(0.7)) dirty_image(g, r);
	bool self = g.b(0.1);
	if (self) c.count("read over itself");
	Image& t = self ? im : r;
	VP_CHECK(ImageIoBmp::read(path, &t), "read-refused", "the written file is refused (%dx%dx%d)", w, h, p);
	same_pix(grab(t), zero, "round-trip", "round trip");
	unlink(path.c_str());
	c.count(p == 1 ? "8 bits written" : p == 3 ? "24 bits written" : "32 bits written");
	if (w * p % 4) c.count("padded rows written");
	c.nontrivial = w * h > 1;
	c.mix(w); c.mix(h); c.mix(p); for (size_t k = 0; k < want.d.size() && k < 64; k++) c.mix(want.d[k]);
	c.desc("write of %dx%dx%d", w, h, p);
}

struct Enc { int w, h, bpp, head = 40, gap = 0, tail = 0; uint32_t comp = 0, sizeField = 0, used = 0; };
static std::string encode(Gen& g, const Enc& e, Pix& px) {
	px.w = e.w; px.h = e.h; px.p = e.bpp / 8;
	px.d.assign((size_t)e.w * e.h * px.p, 0);
	int colors = e.bpp == 8 ? (e.used ? (int)e.used : 256) : (int)e.used; // entries of the palette
	for (auto& b : px.d) b = (unsigned char)g.i(0, e.bpp == 8 ? colors - 1 : 255);
	std::string pal;
	for (int k = 0; k < colors; k++) { pal += (char)k; pal += (char)k; pal += (char)k; pal += '\0'; }
	size_t stride = ((size_t)e.w * e.bpp + 31) / 32 * 4;
	uint32_t off = 14 + e.head + (uint32_t)pal.size() + e.gap;
	std::string s = "BM";
	auto p32 = [&](uint32_t v) { s.append((char*)&v, 4); };
	auto p16 = [&](uint16_t v) { s.append((char*)&v, 2); };
	p32((uint32_t)(off + stride * e.h + e.tail));
	p16((uint16_t)(g.b(0.2) ? g.u64() : 0)); p16((uint16_t)(g.b(0.2) ? g.u64() : 0));
	p32(off);
	p32(e.head); p32(e.w); p32(e.h); p16(1); p16((uint16_t)e.bpp); p32(e.comp);
	p32(g.b() ? 0 : (uint32_t)(stride * e.h));
	p32((uint32_t)g.i(0, 9999)); p32((uint32_t)g.i(0, 9999)); p32(e.bpp == 8 && !e.used && g.b() ? 256 : e.used); p32(g.b(0.3) ? (uint32_t)g.i(0, colors) : 0);
	while ((int)s.size() < 14 + e.head) s += (char)g.i(0, 255);
	s += pal;
	for (int k = 0; k < e.gap; k++) s += (char)g.i(0, 255);
	for (int y = e.h - 1; y >= 0; y--) {
		size_t b = s.size();
		for (int x = 0; x < e.w; x++) {
			if (e.bpp == 8) s += (char)px.at(x, y, 0);
			else { s += (char)px.at(x, y, 2); s += (char)px.at(x, y, 1); s += (char)px.at(x, y, 0); if (e.bpp == 32) s += (char)px.at(x, y, 3); }
		}
		while (s.size() - b < stride) s += (char)(g.b() ? 0 : g.i(0, 255));
	}
	for (int k = 0; k < e.tail; k++) s += (char)g.i(0, 255);
	return s;
}
static void read_case(Ctx& c) {
	Gen& g = c.g;
	Enc e;
	size(g, e.w, e.h, c.index % 151 == 9);
	e.bpp = g.b(0.33) ? 8 : g.b() ? 24 : 32;
	if (g.b(0.2)) e.head = g.b() ? 108 : 124;
	if (g.b(0.3)) e.gap = g.i(1, 300);
	if (g.b(0.15)) e.tail = g.i(1, 50);
	if (g.b(0.25)) { e.used = g.i(1, e.bpp == 8 ? 255 : 600); c.count(e.bpp == 8 ? "short palettes" : "palettes of true colour files"); }
	Pix px;
	std::string s = encode(g, e, px);
	std::string path = c.scratch + "/r.bmp";
	write_file(path, s);
	Image r;
	if (g.b(0.7)) dirty_image(g, r);
	VP_CHECK(ImageIoBmp::read(path, &r), "read-refused", "a well-formed file is refused: %dx%d, %d bits, header %d, gap %d", e.w, e.h, e.bpp, e.head, e.gap);
	same_pix(grab(r), px, "read-pixels", "well-formed file");
	c.count(e.bpp == 8 ? "8 bits read" : e.bpp == 24 ? "24 bits read" : "32 bits read");
	if (e.gap) c.count("gaps before the pixels");
	size_t need = s.size() - e.tail;
	for (int k = 0; k < 6; k++) {
		std::string t = s;
		const char* what = "";
		switch (g.i(0, 7)) {
		case 0: case 1: { size_t cut = g.b(0.3) ? need - 1 : g.b(0.3) ? (size_t)g.i(0, std::min<int>(60, (int)need - 1)) : (size_t)g.i(0, (int)need - 1); t.resize(cut); what = "cut short"; break; }
		case 2: { int at = g.i(0, 1); char o = t[at]; do t[at] = (char)g.i(0, 255); while (t[at] == o); what = "foreign magic"; break; }
		case 3: { uint16_t v[] = {1, 2, 4, 15, 16, 48, 64, 0, 0x1808, 0xfff8}; uint16_t b = v[g.i(0, 9)]; memcpy(&t[28], &b, 2); what = "unsupported depth"; break; }
		case 4: { uint32_t v[] = {1, 2, 3, 4, 0x100, 0xffffffff}; uint32_t b = v[g.i(0, 5)]; memcpy(&t[30], &b, 4); what = "compressed"; break; }
		case 5: { int32_t b = g.b() ? -e.h : -1; memcpy(&t[22], &b, 4); what = "top-down"; break; }
		case 6: { int32_t b = g.b() ? 0 : -e.w; memcpy(&t[g.b() ? 18 : 22], &b, 4); what = "no pixels"; break; }
		default: { uint32_t b = (uint32_t)(s.size() + g.i(0, 100)); if (g.b()) b = 0x7fffff00u; memcpy(&t[10], &b, 4); what = "pixels out of the file"; }
		}
		write_file(path, t);
		VP_CHECK(!ImageIoBmp::read(path, &r), "read-accepts", "a file is accepted although %s (%dx%d, %d bits, %zu bytes instead of %zu)", what, e.w, e.h, e.bpp, t.size(), s.size());
		grab(r);
		c.count("refused files");
	}
	unlink(path.c_str());
	VP_CHECK(!ImageIoBmp::read(path, &r), "read-missing", "a missing file is accepted");
	VP_CHECK(!ImageIoBmp::read(c.scratch, &r), "read-missing", "a directory is accepted");
	write_file(path, s);
	VP_CHECK(ImageIoBmp::read(path, &r), "read-refused", "the file is refused after failures");
	same_pix(grab(r), px, "read-pixels", "after failures");
	unlink(path.c_str());
	c.nontrivial = e.w * e.h > 1;
	c.mix(e.w); c.mix(e.h); c.mix(e.bpp); for (size_t k = 0; k < px.d.size() && k < 64; k++) c.mix(px.d[k]);
	c.desc("read of %dx%d, %d bits", e.w, e.h, e.bpp);
}
void run_case(Ctx& c) { if (c.g.b()) write_case(c); else read_case(c); }
} // namespace vp
