// Reference model of curves, surfaces, patches and affine maps (long double),
// with generators of library objects together with their definition.
#pragma once
#include "vp.h"
#include <memory>
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "SmoothMesh.h"
#include "QuadBezierTriangle.h"
#include "Transform.h"

namespace vp {
struct H { // homogeneous point
	V p; ld w = 0;
	void add(const V& q, ld wq, ld k) { p = p + q * (wq * k); w += wq * k; }
	V get() const { return p / w; }
};

// Cox-de Boor basis: all values N_{i,p}(u), on clamped knots; at u=last knot the limit from below
std::vector<ld> basis(const std::vector<double>& knots, int degree, ld u);

struct CurveDef {
	int degree = 1;
	std::vector<double> knots; // as given to set_knots (any range)
	std::vector<double> w;
	std::vector<Point3> p;
	bool rational() const;
};
struct SurfDef {
	int du = 1, dv = 1, nu = 2, nv = 2;
	std::vector<double> ku, kv, w;
	std::vector<Point3> p;
	bool cu = false, cv = false;
};
struct PatchDef {
	Point3 P1, P2, P3, C12, C13, C23;
	double w1 = 1, w2 = 1, w3 = 1, w12 = 1, w13 = 1, w23 = 1;
	int order = 0; // of the setters
	V eval(ld s, ld u, ld v) const;
	QuadBezierTriangle make() const;
	ld ext() const;
	ld wratio() const;
};

std::vector<double> norm_knots(const std::vector<double>& k); // to [0,1], rounded from long double

enum KnotKind { kAny, kUniform };
std::vector<double> gen_knots(Gen& g, int degree, int n, double closest = 1e-5);
std::vector<double> gen_weights(Gen& g, int n); // 1, common factor, or varying
CurveDef gen_curve(Gen& g, int maxDegree = 5, int maxPoints = 14, double closest = 1e-5, int big = 0);
SurfDef gen_surface(Gen& g, int maxDegree = 4, int maxPoints = 8, double closest = 1e-5, int big = 0);
PatchDef gen_patch(Gen& g);

void set(NurbsCurve& c, const CurveDef& d, Gen* order = nullptr);   // in a random order of setters when given
void set(NurbsSurface& s, const SurfDef& d, Gen* order = nullptr);
CurveDef def(const NurbsCurve& c);   // what the object holds
SurfDef def(const NurbsSurface& s);
bool same(const CurveDef& a, const CurveDef& b);  // bit exact
bool same(const SurfDef& a, const SurfDef& b);
std::string diff(const SurfDef& a, const SurfDef& b);
std::string diff(const CurveDef& a, const CurveDef& b);
uint64_t hash(const CurveDef& d);
uint64_t hash(const SurfDef& d);

// evaluation of a definition whose knots are already in [0,1]
V eval(const CurveDef& d, ld u);
V eval(const SurfDef& d, ld u, ld v);
ld ext(const CurveDef& d);
ld ext(const SurfDef& d);
ld wratio(const std::vector<double>& w);
// a parameter of [0,1], often a knot or a neighbour of one
double gen_param(Gen& g, const std::vector<double>& knots01);

void dirty(Gen& g, NurbsCurve& c);
void dirty(Gen& g, NurbsSurface& s);
void dirty(Gen& g, NurbsSolid& s);
void dirty(Gen& g, SmoothMesh& s);

struct Affine { // x -> A x + b
	ld a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
	V b;
	V operator()(const V& x) const {
		return V(a[0][0] * x.x + a[0][1] * x.y + a[0][2] * x.z, a[1][0] * x.x + a[1][1] * x.y + a[1][2] * x.z, a[2][0] * x.x + a[2][1] * x.y + a[2][2] * x.z) + b;
	}
	V lin(const V& x) const { return (*this)(x) - b; }
	Affine then(const Affine& o) const { // o after this
		Affine r;
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.a[i][j] = 0; for (int k = 0; k < 3; k++) r.a[i][j] += o.a[i][k] * a[k][j]; }
		r.b = o(b);
		return r;
	}
	ld det() const {
		return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
	}
	ld norm() const { ld m = 0; for (auto& r : a) for (ld x : r) m = std::max(m, fabsl(x)); return m; }
};
Affine rodrigues(ld degrees, const V& unitAxis);
// a random library transform with the map it must be
std::shared_ptr<Transform> gen_transform(Gen& g, Affine& map, std::string& name, double m = 10.);
} // namespace vp
