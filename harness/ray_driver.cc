// Driver for mapping::RayToPixelMask (M05).
#include "cartographer/mapping/internal/2d/ray_to_pixel_mask.h"
#include "vh.h"
using vh::json;
namespace {
json Cells(const json& b, const json& e, int s, int k) {
  // A ray at scale s is the same ray at scale k * s (k odd) with these ends.
  auto up = [k](int x) { return (k * (2 * x + 1) - 1) / 2; };
  json r = json::array();
  for (const auto& c : cartographer::mapping::RayToPixelMask(
           Eigen::Array2i(up(b[0]), up(b[1])), Eigen::Array2i(up(e[0]), up(e[1])), s * k))
    r.push_back({c.x(), c.y()});
  return r;
}
void Run(const json& sc) {
  const int s = sc["s"], k = sc["k"];
  if (sc.contains("n")) {  // all rays from b within n x n cells
    const int n = sc["n"].get<int>() * s;
    json r = json::array();
    for (int x = 0; x < n; ++x)
      for (int y = 0; y < n; ++y) r.push_back({{x, y}, Cells(sc["b"], {x, y}, s, k)});
    vh::Emit({{"e", "rays"}, {"b", sc["b"]}, {"s", s}, {"r", r}});
  } else {
    for (const json& ray : sc["rays"])
      vh::Emit({{"e", "ray"}, {"b", ray[0]}, {"x", ray[1]}, {"s", s}, {"cells", Cells(ray[0], ray[1], s, k)}});
  }
  vh::Emit({{"e", "End"}});
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
