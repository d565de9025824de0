// client code of gear/Vector3D, through which the contracts of contracts/surf.py call the functions of the header
#include "gearimpl/Vector3D.h"
namespace gear {
struct OtherVector { double a, b, c; OtherVector(double x, double y, double z) : a(x), b(y), c(z) {} double x() const { return a; } double y() const { return b; } double z() const { return c; } };
Vector3D clientCartesian(double x, double y, double z) { return Vector3D(x, y, z); }
Vector3D clientCartesianTag(double x, double y, double z) { return Vector3D(x, y, z, Vector3D::cartesian); }
Vector3D clientCylindrical(double x, double y, double z) { return Vector3D(x, y, z, Vector3D::cylindrical); }
Vector3D clientSpherical(double x, double y, double z) { return Vector3D(x, y, z, Vector3D::spherical); }
Vector3D clientArray(double x, double y, double z) { double a[3] = {x, y, z}; const double* p = a; return Vector3D(p); }
Vector3D clientOther(const OtherVector& t) { return Vector3D(t); }
OtherVector clientConvert(Vector3D& v) { return v.to<OtherVector>(); }
Vector3D clientAdd(const Vector3D& a, const Vector3D& b) { return a + b; }
Vector3D clientSubtract(const Vector3D& a, const Vector3D& b) { return a - b; }
Vector3D clientScale(double s, const Vector3D& a) { return s * a; }
bool clientEqual(const Vector3D& a, const Vector3D& b) { return a == b; }
double clientAt(const Vector3D& a, int i) { return a[i]; }
void clientSet(Vector3D& a, int i, double v) { a[i] = v; }
double clientX(Vector3D& a) { return a.x(); }
double clientY(Vector3D& a) { return a.y(); }
double clientZ(Vector3D& a) { return a.z(); }
}
