#include <gtest/gtest.h>
#include <ros/ros.h>
int main(int c,char**v){ testing::InitGoogleTest(&c,v); return RUN_ALL_TESTS(); }
