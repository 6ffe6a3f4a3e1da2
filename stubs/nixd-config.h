#pragma once
#define NIXD_LIBEXEC "/usr/local/libexec"
#define NIXD_VERSION "analysis"
