// Independent camera and light model for the renderer's monitors.
#pragma once
#include "vp.h"
#include "Renderer.h"

namespace vp {
struct Cam {
	V o;
	ld ahead = 0, yaw = 0, pitch = 0, roll = 0, zoom = 1;
	int W = 0, H = 0;
	ld m[3][3]; // rotation part of the camera, rows
	void prepare() {
		const ld k = 3.14159265358979323846264338327950288L / 180.L;
		ld cy = cosl(yaw * k), sy = sinl(yaw * k), cp = cosl(pitch * k), sp = sinl(pitch * k), cr = cosl(roll * k), sr = sinl(roll * k);
		for (int c = 0; c < 3; c++) {
			ld x = c == 0, y = c == 1, z = c == 2, t;
			t = x; x = x * cy + z * sy; z = z * cy - t * sy;
			t = y; y = z * sp - y * cp; z = z * cp + t * sp;
			t = x; x = x * cr + y * sr; y = y * cr - t * sr;
			m[0][c] = x; m[1][c] = y; m[2][c] = z;
		}
	}
	V local(const V& p) const {
		V d = p - o;
		return V(m[0][0] * d.x + m[0][1] * d.y + m[0][2] * d.z, m[1][0] * d.x + m[1][1] * d.y + m[1][2] * d.z, m[2][0] * d.x + m[2][1] * d.y + m[2][2] * d.z + ahead);
	}
	V world(const V& l) const {
		V d(l.x, l.y, l.z - ahead);
		return V(m[0][0] * d.x + m[1][0] * d.y + m[2][0] * d.z, m[0][1] * d.x + m[1][1] * d.y + m[2][1] * d.z, m[0][2] * d.x + m[1][2] * d.y + m[2][2] * d.z) + o;
	}
	// continuous pixel coordinates (the pixel is the nearest integer), and 1/z
	V screen(const V& p) const {
		V l = local(p);
		return V(l.x * zoom / l.z + W / 2, l.y * zoom / l.z + H / 2, 1 / l.z);
	}
	// the point seen at a position of the screen, at the distance z
	Point3 at(ld sx, ld sy, ld z) const { return world(V((sx - W / 2) * z / zoom, (sy - H / 2) * z / zoom, z)).p(); }
	void set(Renderer& r) const { r.set_camera((double)o.x, (double)o.y, (double)o.z, (double)ahead, (double)yaw, (double)pitch, (double)roll, (double)zoom); }
};

struct Light { bool diffuse; int color; double f; Point3 dir; };
inline void add_light(Renderer& r, const Light& l) {
	if (l.diffuse) r.add_diffuse_light(l.color, l.f, l.dir);
	else r.add_ambient_light(l.color, l.f);
}

// permitted colours: an interval per channel (exact colours have lo == hi, and the top byte too)
struct Col {
	int lo[4] = {0, 0, 0, 0}, hi[4] = {0, 0, 0, 0};
	static Col exact(int c) { Col r; for (int k = 0; k < 4; k++) r.lo[k] = r.hi[k] = (c >> (8 * k)) & 255; return r; }
	bool ok(int c) const { for (int k = 0; k < 4; k++) { int v = (c >> (8 * k)) & 255; if (v < lo[k] || v > hi[k]) return false; } return true; }
	std::string str() const { return fmt("%02x%02x%02x%02x..%02x%02x%02x%02x", lo[3], lo[2], lo[1], lo[0], hi[3], hi[2], hi[1], hi[0]); }
};
inline Col lit(const std::vector<Light>& ls, int color, const Point3& A, const Point3& B, const Point3& C) {
	V ab = V(A) - V(B), ac = V(A) - V(C), n = ab.cross(ac);
	ld nn = n.n(), ext = absmax(V(A)) + absmax(V(B)) + absmax(V(C));
	// sensitivity of the normal to roundings of the differences
	ld cond = nn > 0 ? (ab.n() * ac.n() / nn) * (1 + ext / std::min(ab.n(), ac.n())) : 0;
	ld rel = nn > 0 ? 1e-14L * (1 + cond) : 2;
	if (!(rel < 2)) rel = 2;
	if (nn > 0) n = n / nn;
	Col r;
	for (int k = 0; k < 3; k++) {
		ld s = 0, tol = 1e-12L;
		for (auto& l : ls) {
			ld base = ((color >> (8 * k)) & 255) / 256.L * l.f * ((l.color >> (8 * k)) & 255) / 256.L;
			if (!l.diffuse) { s += base; tol += 1e-13L * fabsl(base); continue; }
			ld d = nn > 0 ? std::max((ld)0, n.dot(V(l.dir))) : 0;
			s += base * d;
			tol += fabsl(base) * (1e-13L * fabsl(d) + rel * V(l.dir).n());
		}
		auto conv = [](ld v) { v = v * 256 + 0.5L; return !(v > 0) ? 0 : v > 255 ? 255 : (int)v; };
		r.lo[k] = conv(s - tol); r.hi[k] = conv(s + tol);
	}
	return r;
}
} // namespace vp
