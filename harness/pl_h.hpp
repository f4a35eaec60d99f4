#include "core.hpp"
#include "pl.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
using namespace dsim;
namespace dsim { void plBoot(); }
// the perl file lies beside the harness source
#define PL_SCRIPT(f) static const std::string script_path_ = std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/') + 1) + f; \
    static struct BootNow { BootNow() { dsim::pl_script = script_path_.c_str(); dsim::plBoot(); } } boot_now_;
