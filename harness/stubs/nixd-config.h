#pragma once
#define NIXD_VERSION "verif"
#define NIXD_LIBEXEC "/nonexistent"
