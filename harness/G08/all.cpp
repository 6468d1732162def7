#include "angle.h"
namespace g08 { namespace {
struct R { R() {
  mc::add("plane double", in_plane<double, double>); mc::add("plane float", in_plane<float, float>); mc::add("plane mixed", in_plane<float, double>);
  mc::add("space double", in_space<double, double>); mc::add("space float", in_space<float, float>); mc::add("space mixed", in_space<double, float>);
  mc::add("limits double", limits<double>); mc::add("limits float", limits<float>);
} } r; } }
