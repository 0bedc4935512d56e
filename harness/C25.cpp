// C25: images as arrays, image tools.
#include "vp.h"
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
using namespace vp;
namespace vp {
const char* kRule = "case = history over a pool of images (resize, writes through each accessor, copies, assignments, conversions, scalings, generators), every byte compared with an array model; non-trivial = at least one image with several pixels";

struct Arr { // the model; bytes not yet known (after a resize) are learnt from the image
	int w = 0, h = 0, p = 1; std::vector<unsigned char> d;
	size_t at(int x, int y, int k) const { return ((size_t)y * w + x) * p + k; }
};

static void check_dims(const Image& im, int w, int h, int p, const char* what) {
	VP_CHECK(im.width() == w && im.height() == h && im.planes() == p && im.size() == w * h * p, "size", "%s: image of %dx%dx%d, size() %d, instead of %dx%dx%d", what, im.width(), im.height(), im.planes(), im.size(), w, h, p);
}
// reads every byte through every accessor
static void compare(Ctx& c, Image& im, const Arr& a, const char* what) {
	check_dims(im, a.w, a.h, a.p, what);
	const Image& k = im;
	for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) for (int q = 0; q < a.p; q++) {
		unsigned char want = a.d[a.at(x, y, q)];
		unsigned char g1 = k(x, y, q), g2 = im(x, y, q), g3 = *k.pixel(x, y, q), g4 = *im.pixel(x, y, q), g5 = im.data()[a.at(x, y, q)];
		VP_CHECK(g1 == want && g2 == want && g3 == want && g4 == want && g5 == want, "byte", "%s: pixel (%d,%d) plane %d of %dx%dx%d is %d %d %d %d %d by the accessors instead of %d", what, x, y, q, a.w, a.h, a.p, g1, g2, g3, g4, g5, want);
	}
	c.count("bytes compared", (long)a.d.size());
}
static Arr learn(Image& im, int w, int h, int p) {
	check_dims(im, w, h, p, "after a resize");
	Arr a; a.w = w; a.h = h; a.p = p;
	a.d.assign(im.data(), im.data() + (size_t)w * h * p);
	return a;
}

// Mandelbrot: number of iterations used, in several roundings of the same formula
template <class T> static int iterations(T cx, T cy, int n) {
	T x = cx, y = cy; int k = 0;
	while (x * x + y * y < (T)4) {
		T xy = x * y; x = (x + y) * (x - y) + cx; y = xy + xy + cy;
		if (k == n) break;
		k++;
	}
	return k;
}
static void mandelbrot_check(Ctx& c, Image& im, int W, int H, int n) {
	check_dims(im, W, H, 4, "Mandelbrot");
	for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
		uint32_t got; memcpy(&got, im.pixel(x, y), 4);
		float fx = -2.1f + (W - x) / (float)W * (0.9f - -2.1f), fy = -1.5f + (H - y) / (float)H * (1.5f - -1.5f);
		int k = iterations<float>(fx, fy, n);
		if (got == (uint32_t)k * 65793u) { c.count(k == n ? "points of the set" : "points out of the set"); continue; }
		// other roundings are legitimate: the point may be anywhere near, iterated in any precision
		ld lx = -2.1L + 3.0L * (W - x) / W, ly = -1.5L + 3.0L * (H - y) / H;
		int lo = k, hi = k;
		auto see = [&](int v) { lo = std::min(lo, v); hi = std::max(hi, v); };
		for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) { see(iterations<ld>(lx + a * 2e-7L, ly + b * 2e-7L, n)); see(iterations<float>((float)(lx + a * 2e-7L), (float)(ly + b * 2e-7L), n)); see(iterations<double>((double)(lx + a * 2e-7L), (double)(ly + b * 2e-7L), n)); }
		VP_CHECK(got % 65793u == 0, "mandelbrot", "pixel (%d,%d) of %dx%d is %08x, not a number of iterations (%d allowed)", x, y, W, H, got, n);
		long v = (long)(got / 65793u);
		// where the neighbourhood disagrees, the iteration is chaotic there: any number from the lowest is possible
		bool chaotic = hi - lo > 2;
		VP_CHECK(v <= n && v >= lo - 1 && (chaotic || v <= hi + 1) && hi > lo, "mandelbrot", "pixel (%d,%d) of %dx%d counts %ld iterations instead of %d (%d..%d nearby), %d allowed", x, y, W, H, v, k, lo, hi, n);
		c.count("points within roundings");
	}
	c.count("Mandelbrot images");
}

// more bytes than an int can count
static void huge(Ctx& c) {
	int w = 46341, h = 46341; // w*h > 2^31
	Image im(w, h, 1);
	VP_CHECK(im.width() == w && im.height() == h && im.planes() == 1, "huge-size", "image of %dx%dx%d instead of %dx%dx1", im.width(), im.height(), im.planes(), w, h);
	const Image& k = im;
	struct { int x, y; } at[] = {{0, 0}, {w - 1, 0}, {0, h - 1}, {w - 1, h - 1}, {46340, 46339}, {1, 46340}, {123, 40000}};
	unsigned char v = 1;
	for (auto& q : at) { *im.pixel(q.x, q.y) = v; VP_CHECK(im(q.x, q.y) == v && k(q.x, q.y) == v && *k.pixel(q.x, q.y) == v && im.data()[(size_t)q.y * w + q.x] == v, "huge-byte", "pixel (%d,%d) of %dx%d", q.x, q.y, w, h); v++; }
	v = 1;
	for (auto& q : at) { VP_CHECK(k(q.x, q.y) == v, "huge-alias", "pixel (%d,%d) of %dx%d changed", q.x, q.y, w, h); v++; }
	c.mix(99); c.nontrivial = true; c.count("images of more than 2^31 bytes"); c.desc("image of %dx%d", w, h);
}
long fixed_cases() { return 1; }
void run_case(Ctx& c) {
	if (c.index == 0) { huge(c); return; }
	Gen& g = c.g;
	int P = g.i(1, 4);
	std::vector<Image> im; im.reserve((size_t)P);
	std::vector<Arr> ref((size_t)P);
	for (int k = 0; k < P; k++) {
		if (g.b(0.3)) { im.push_back(Image()); ref[k] = Arr(); check_dims(im[k], 0, 0, 1, "default image"); }
		else { int w = g.size(0, 60), h = g.size(0, 50), p = g.i(1, 5); im.push_back(Image(w, h, p)); ref[k] = learn(im[k], w, h, p); }
	}
	auto fill = [&](int k) {
		Arr& a = ref[k]; int mode = g.i(0, 3);
		for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) for (int q = 0; q < a.p; q++) {
			unsigned char v = mode == 0 ? 255 : mode == 1 ? (unsigned char)(x + 7 * y + 31 * q) : mode == 2 ? (unsigned char)(g.b() ? 0 : 255) : (unsigned char)g.i(0, 255);
			a.d[a.at(x, y, q)] = v;
			switch ((x + y + q) & 3) { case 0: im[k](x, y, q) = v; break; case 1: *im[k].pixel(x, y, q) = v; break; case 2: im[k].data()[a.at(x, y, q)] = v; break; default: im[k].pixel(x, y)[q] = v; }
		}
	};
	int steps = g.size(1, 20);
	for (int s = 0; s < steps; s++) {
		int k = g.i(0, P - 1), o = g.i(0, P - 1);
		Arr& a = ref[k];
		switch (g.i(0, 11)) {
		case 0: { int w = g.size(0, 60), h = g.size(0, 50), p = g.b(0.05) ? g.i(6, 40) : g.i(1, 5); if (g.b(0.02)) { w = g.i(200, 900); h = g.i(100, 500); if (p > 5) p = 5; } else if (g.b(0.01)) { w = g.i(1000, 70000); h = g.i(0, 2); if (p > 5) p = 3; if (g.b()) std::swap(w, h); } im[k].resize(w, h, p); a = learn(im[k], w, h, p); c.count("resizes"); if (g.b(0.7)) fill(k); break; }
		case 1: fill(k); break;
		case 2: case 3: { // single writes change only one byte
			if (!a.d.size()) break;
			int n = g.i(1, 10);
			for (int i = 0; i < n; i++) {
				int x = g.b(0.2) ? a.w - 1 : g.i(0, a.w - 1), y = g.b(0.2) ? a.h - 1 : g.i(0, a.h - 1), q = g.i(0, a.p - 1); unsigned char v = (unsigned char)g.i(0, 255);
				if (g.b()) im[k](x, y, q) = v; else *im[k].pixel(x, y, q) = v;
				a.d[a.at(x, y, q)] = v;
				c.count("writes");
			}
			compare(c, im[k], a, "after single writes");
			break; }
		case 4: im[k] = im[o]; a = Arr(ref[o]); c.count(k == o ? "self-assignments" : "assignments"); break;
		case 5: { Image t(im[o]); Arr b = ref[o]; fill(o); compare(c, t, b, "copy after writing the original"); std::swap(im[k], t); Arr old = ref[k]; ref[k] = b; if (k != o) compare(c, t, old, "swapped out"); c.count("copies"); break; }
		case 6: { // grey
			if (a.p < 3) { int w = g.size(0, 60), h = g.size(0, 40); im[k].resize(w, h, g.i(3, 5)); a = learn(im[k], w, h, im[k].planes()); fill(k); }
			if (k == o) { Image out(g.i(0, 5), g.i(0, 5), g.i(1, 4)); ImageUtil::convert_to_bw(im[k], out); Arr b; b.w = a.w; b.h = a.h; b.p = 1; for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) b.d.push_back((unsigned char)((a.d[a.at(x, y, 0)] + a.d[a.at(x, y, 1)] + a.d[a.at(x, y, 2)]) / 3)); compare(c, out, b, "grey"); }
			else { ImageUtil::convert_to_bw(im[k], im[o]); Arr b; b.w = a.w; b.h = a.h; b.p = 1; for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) b.d.push_back((unsigned char)((a.d[a.at(x, y, 0)] + a.d[a.at(x, y, 1)] + a.d[a.at(x, y, 2)]) / 3)); ref[o] = b; compare(c, im[o], b, "grey into a used image"); }
			if (a.w != a.h && a.d.size()) c.count("non-square conversions");
			c.count("conversions"); break; }
		case 7: { // scaling
			double f = g.b(0.2) ? g.i(0, 3) : g.b(0.2) ? g.u(0.9, 1.1) : g.b(0.15) ? -g.u(0, 3) : g.b(0.2) ? g.logu(3, 1e9) : g.u(0, 4);
			if (a.d.size() && g.b(0.3)) { int v = a.d[g.i(0, (int)a.d.size() - 1)]; if (v) f = (g.i(0, 255) + 0.5 + g.sgn() * g.logu(1e-10, 1e-5)) / v; }
			ImageUtil::scale(im[k], f);
			check_dims(im[k], a.w, a.h, a.p, "scaled");
			for (size_t i = 0; i < a.d.size(); i++) {
				ld e = (ld)a.d[i] * f + 0.5L, tol = 1e-12L * (1 + fabsl(e));
				auto conv = [](ld v) { return v <= 0 ? 0 : v >= 255 ? 255 : (int)floorl(v); };
				int v = im[k].data()[i];
				VP_CHECK(v >= conv(e - tol) && v <= conv(e + tol), "scale", "value %d scaled by %.17g is %d instead of %d", a.d[i], f, v, conv(e));
				if (e > 256) c.count("saturated values");
				a.d[i] = (unsigned char)v;
			}
			c.count("scalings"); break; }
		case 8: { // Sierpinski
			int w = g.size(0, 80), h = g.size(0, 80); if (g.b(0.05)) w = g.i(0, 600); if (g.b(0.05)) h = g.i(0, 400);
			if (g.b(0.008)) { // large, apart from the pool
				int W = g.b() ? g.i(1030, 1400) : g.i(1, 70000), H = W <= 1400 ? g.i(1030, 1400) : g.i(1, 8);
				if (g.b()) std::swap(W, H);
				Image big(g.i(0, 3), g.i(0, 3), 1);
				ImageGenerator::Shierpinsky(big, W, H);
				check_dims(big, W, H, 4, "large Sierpinski");
				for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t got; memcpy(&got, big.pixel(x, y), 4); uint32_t want = (x & y) == 0 ? 0x01ffffffu : 0u; VP_CHECK(got == want, "sierpinski", "pixel (%d,%d) of %dx%d is %08x instead of %08x", x, y, W, H, got, want); }
				c.count("large Sierpinski images");
			}
			ImageGenerator::Shierpinsky(im[k], w, h);
			check_dims(im[k], w, h, 4, "Sierpinski");
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
				uint32_t got; memcpy(&got, im[k].pixel(x, y), 4);
				uint32_t want = (x & y) == 0 ? 0x01ffffffu : 0u;
				VP_CHECK(got == want, "sierpinski", "pixel (%d,%d) of %dx%d is %08x instead of %08x", x, y, w, h, got, want);
			}
			a = learn(im[k], w, h, 4); c.count("Sierpinski images"); if (w != h) c.count("non-square fractals"); break; }
		case 9: { // Mandelbrot
			int w = g.size(0, 40), h = g.size(0, 40), n = g.b(0.3) ? 255 : g.size(0, 100);
			if (g.b(0.02)) { n = g.i(32000, 70000); w = g.i(1, 8); h = g.i(1, 8); c.count("many iterations"); }
			if (g.b(0.01)) { w = g.i(100, 3000); h = g.i(1, 3); if (g.b()) std::swap(w, h); n = g.i(0, 60); }
			if (n == 255 && g.b()) ImageGenerator::Mandelbrot(im[k], w, h); else ImageGenerator::Mandelbrot(im[k], w, h, n);
			mandelbrot_check(c, im[k], w, h, n);
			a = learn(im[k], w, h, 4); if (w != h) c.count("non-square fractals"); break; }
		case 10: { // doubles
			if (a.p < 1) break;
			std::vector<double> v((size_t)g.i(0, 30), -7.5);
			im[k].to_double(v);
			VP_CHECK(v.size() == (size_t)a.w * a.h, "to_double", "%zu values for %dx%d", v.size(), a.w, a.h);
			for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) VP_CHECK(v[(size_t)y * a.w + x] == a.d[a.at(x, y, 0)], "to_double", "value (%d,%d) of %dx%dx%d is %g instead of %d", x, y, a.w, a.h, a.p, v[(size_t)y * a.w + x], a.d[a.at(x, y, 0)]);
			c.count("conversions to double"); break; }
		case 11: { // addresses of distinct bytes are distinct
			if (!a.d.size()) break;
			unsigned char* base = im[k].data();
			for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) for (int q = 0; q < a.p; q++) VP_CHECK(im[k].pixel(x, y, q) == base + a.at(x, y, q) && &im[k](x, y, q) == base + a.at(x, y, q), "address", "pixel (%d,%d) plane %d of %dx%dx%d is at %td", x, y, q, a.w, a.h, a.p, im[k].pixel(x, y, q) - base);
			c.count("address sweeps"); break; }
		}
		for (int j = 0; j < P; j++) { if (g.b(0.5)) compare(c, im[j], ref[j], "pool"); c.mix(ref[j].d.size()); }
	}
	for (int j = 0; j < P; j++) { compare(c, im[j], ref[j], "pool at the end"); if (ref[j].d.size() > 1) c.nontrivial = true; for (size_t i = 0; i < ref[j].d.size(); i += 3) c.mix(ref[j].d[i]); }
	c.desc("%d images, %d operations, the first %dx%dx%d", P, steps, ref[0].w, ref[0].h, ref[0].p);
}
} // namespace vp
