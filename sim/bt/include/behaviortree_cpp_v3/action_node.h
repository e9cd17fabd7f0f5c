#pragma once
#include <behaviortree_cpp_v3/bt_factory.h>
