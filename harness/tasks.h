// A catalogue of library operations, each giving a digest of its results:
// used to compare fresh with used objects (C28) and threads with sequence (C27).
#pragma once
#include "spline.h"
#include "render.h"
#include "Image.h"
#include "OBJFile.h"
#include "StepFile.h"
#include "Face.h"
#include "Solid.h"

namespace vp {
struct Digest {
	uint64_t h = 1469598103934665603ull;
	void u(uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
	void d(double v) { uint64_t q; memcpy(&q, &v, 8); u(q); }
	void p(const Point3& v) { d(v._x); d(v._y); d(v._z); }
	void s(const std::string& v) { u(v.size()); for (char c : v) u((unsigned char)c); }
	void m(const Mesh& v);          // geometry and removed triangles, not the colour
	void c(const NurbsCurve& v) { u(hash(def(v))); }
	void c(const NurbsSurface& v) { u(hash(def(v))); u(v.is_closed_u() * 2 + v.is_closed_v()); }
	void c(const NurbsSolid& v) { u(v.surfaces().size()); for (auto& x : v.surfaces()) c(x); }
	void c(const SmoothMesh& v);
	void c(Image& v);
};
struct Work { // objects that receive results
	Mesh a, b, c, d;
	NurbsCurve nc, nc2;
	NurbsSurface ns, ns2;
	NurbsSolid so;
	SmoothMesh sm;
	Image im, im2;
	OBJWriter obj;
	StepWriter step;
	std::vector<Point3> pl;
	std::vector<double> vd;
	std::string dir; // private directory
};
int nb_tasks();
const char* task_name(int k);
// does the operation on arguments drawn from g, with the results in w; returns the digest of the results,
// and tells in *changed when an argument that is only read was modified
uint64_t run_task(int k, Gen g, Work& w, std::string* changed);

// leaves the objects in unusual but legitimate states
void odd_states(Gen& g, Work& w);

// shared objects that nobody modifies, and a digest of what many readers get
struct Shared {
	Mesh mesh; SmoothMesh sm; NurbsCurve nc; NurbsSurface ns; NurbsSolid so; Image im; QuadBezierTriangle patch;
	void make(Gen& g);
};
uint64_t read_shared(const Shared& s, int what, Gen g, const std::string& dir);
int nb_shared();
const char* shared_name(int k);
} // namespace vp
