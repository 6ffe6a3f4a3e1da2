#pragma once
#include <nix/stub.hh>
