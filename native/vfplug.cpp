// A plugin whose identity and functions are read from the file next to it (its own path + ".cfg").
// Lines: config|id|ns|name|version|api|flags   func|name|args|ret|tag   late|name|args|ret|tag (registered after configPlugin returns and again through VSAPI)
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "VapourSynth4.h"

static int entered = 0;

VS_EXTERNAL_API(int) vfplug_entered() {
    return entered;
}

// tags from 1000 on: the function also returns its arguments
static void VS_CC call(const VSMap *in, VSMap *out, void *userData, VSCore *, const VSAPI *vsapi) {
    entered++;
    if (reinterpret_cast<intptr_t>(userData) >= 1000)
        vsapi->copyMap(in, out);
    vsapi->mapSetInt(out, "tag", static_cast<int64_t>(reinterpret_cast<intptr_t>(userData)), maReplace);
    vsapi->mapSetInt(out, "args", vsapi->mapNumKeys(in), maReplace);
}

VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    Dl_info info = {};
    dladdr(reinterpret_cast<void *>(&call), &info);
    std::ifstream f(std::string(info.dli_fname) + ".cfg");
    std::ofstream log(std::string(info.dli_fname) + ".log", std::ios::app);
    std::string line;
    while (std::getline(f, line)) {
        std::vector<std::string> v;
        std::stringstream ss(line);
        std::string t;
        while (std::getline(ss, t, '|'))
            v.push_back(t);
        v.resize(8);
        if (v[0] == "config")
            log << "config " << vspapi->configPlugin(v[1].c_str(), v[2].c_str(), v[3].c_str(), atoi(v[4].c_str()), atoi(v[5].c_str()), atoi(v[6].c_str()), plugin) << "\n";
        else if (v[0] == "func")
            log << "func " << vspapi->registerFunction(v[1].c_str(), v[2].c_str(), v[3].c_str(), call, reinterpret_cast<void *>(static_cast<intptr_t>(atoi(v[4].c_str()))), plugin) << "\n";
        else if (v[0] == "apiversion")
            log << "apiversion " << vspapi->getAPIVersion() << "\n";
    }
}
