// A directory of this process, inside the scratch directory of the check.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <string>
#include <unistd.h>

namespace scratch {

inline std::string const& directory()
{
    static std::string const path = [] {
        char const* scratch = getenv("FERN_SCRATCH");
        std::string p = std::string(scratch ? scratch : ".") + "/files-" + std::to_string((int)getpid());
        std::filesystem::create_directories(p);
        return p;
    }();
    return path;
}

struct Clean { Clean() { directory(); } ~Clean() { std::error_code e; std::filesystem::remove_all(directory(), e); } };
static Clean clean;

inline std::string path(std::string const& name) { return directory() + "/" + name; }

} // namespace scratch
