// In place of loading a map file: the network the harness builds.
#include <sim/lanelet/world.hpp>
#include <traffic_simulator/lanelet_wrapper/lanelet_loader.hpp>
namespace simlanelet
{
std::function<lanelet::LaneletMapPtr()> make_map = [] { return straight_world(); };
}
namespace traffic_simulator::lanelet_wrapper
{
auto LaneletLoader::load(const std::filesystem::path &) -> lanelet::LaneletMapPtr { return simlanelet::make_map(); }
auto LaneletLoader::convertMapToBin(const lanelet::LaneletMapPtr) -> autoware_map_msgs::msg::LaneletMapBin { return {}; }
}  // namespace traffic_simulator::lanelet_wrapper
