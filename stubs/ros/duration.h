#include "ros/ros.h"
