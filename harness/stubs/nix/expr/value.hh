#pragma once
// Stand-in for the Nix C++ header: nixd's protocol header only includes it.
