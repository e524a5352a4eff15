#!/bin/bash
# build.sh NAME srcs... : compile a harness for hand use
n=$1; shift; g++ -std=c++11 -O1 -g -w -DNDEBUG -DHAVE_CONFIG_H=1 -DCACHELOT_PLATFORM_BITS=64 -DBOOST_ALL_NO_LIB -fno-access-control -fsanitize=address -I /verif/gen -I ${REPO:-/repo}/src -I /verif/native /verif/native/$n.cpp "$@" -o /tmp/w/$n -lboost_system -lpthread
