#!/bin/bash
# Verifies that the tools the checks need are installed; the checks build their own harnesses from /repo.
set -e
for t in g++ clang++ python3; do command -v "$t" >/dev/null || { echo "missing: $t"; exit 1; }; done
echo '#include <Eigen/Dense>
#include <glog/logging.h>
#include <boost/thread.hpp>
int main(){}' | g++ -std=gnu++14 -isystem /usr/include/eigen3 -fsyntax-only -x c++ -
mkdir -p "$(dirname "$0")/evidence"
echo setup ok
