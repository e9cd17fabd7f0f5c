#pragma once
#include <stdexcept>
#include <string>
namespace ament_index_cpp
{
class PackageNotFoundError : public std::out_of_range { public: using std::out_of_range::out_of_range; };
std::string get_package_share_directory(const std::string &);
std::string get_package_prefix(const std::string &);
}
