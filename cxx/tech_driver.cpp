// Drives the functions of cxx/gen_tech_pb (built with AddressSanitizer and UBSan) with inputs made by checks/c16.py
#include "protobuf.h"
#include <string>
#include <vector>
#include <cstdlib>

static std::vector<std::string> split(const std::string &l) {
    std::vector<std::string> r;
    size_t a = 0;
    while (true) {
        size_t b = l.find('\t', a);
        r.push_back(l.substr(a, b == std::string::npos ? b : b - a));
        if (b == std::string::npos) return r;
        a = b + 1;
    }
}

static double d(const std::string &s) { return std::strtod(s.c_str(), nullptr); }
static long i(const std::string &s) { return std::strtol(s.c_str(), nullptr, 10); }

int main(int argc, char **argv) {
    std::string mode = argv[1];
    try {
        if (mode == "convert") {          // convert IN FORMAT OUT FORMAT ...
            for (int k = 2; k + 3 < argc; k += 4)
                convert(argv[k], (Format)std::atoi(argv[k + 1]), argv[k + 2], (Format)std::atoi(argv[k + 3]));
            return 0;
        }
        if (mode == "build") {            // build OUT < calls
            kpex::tech::Technology tech;
            auto psi = tech.mutable_process_stack();
            auto ri = tech.mutable_process_parasitics()->mutable_resistance();
            auto ci = tech.mutable_process_parasitics()->mutable_capacitance();
            std::string line;
            while (std::getline(std::cin, line)) {
                auto a = split(line);
                const std::string &f = a[0];
                if (f == "layer") addLayer(&tech, (kpex::tech::LayerInfo::Purpose)i(a[1]), a[2], i(a[3]), i(a[4]), i(a[5]), i(a[6]), i(a[7]), i(a[8]), a[9]);
                else if (f == "computed") addComputedLayer(&tech, (kpex::tech::LayerInfo::Purpose)i(a[1]), (kpex::tech::ComputedLayerInfo_Kind)i(a[2]), a[3], i(a[4]), i(a[5]), a[6], a[7]);
                else if (f == "substrate") addSubstrateLayer(psi, a[1], d(a[2]), d(a[3]), a[4]);
                else if (f == "nwell") setContact(addNWellLayer(psi, a[1], d(a[2]), a[3])->mutable_contact_above(), a[4], a[5], a[6], d(a[7]), d(a[8]), d(a[9]), d(a[10]));
                else if (f == "diffusion") setContact(addDiffusionLayer(psi, a[1], d(a[2]), a[3])->mutable_contact_above(), a[4], a[5], a[6], d(a[7]), d(a[8]), d(a[9]), d(a[10]));
                else if (f == "fox") addFieldOxideLayer(psi, a[1], d(a[2]));
                else if (f == "metal") setContact(addMetalLayer(psi, a[1], d(a[2]), d(a[3]))->mutable_contact_above(), a[4], a[5], a[6], d(a[7]), d(a[8]), d(a[9]), d(a[10]));
                else if (f == "sidewall") addSidewallDielectric(psi, a[1], d(a[2]), d(a[3]), d(a[4]), a[5]);
                else if (f == "simple") addSimpleDielectric(psi, a[1], d(a[2]), a[3]);
                else if (f == "conformal") addConformalDielectric(psi, a[1], d(a[2]), d(a[3]), d(a[4]), d(a[5]), a[6]);
                else if (f == "rlayer") addLayerResistance(ri, a[1], d(a[2]));
                else if (f == "rlayer2") addLayerResistance(ri, a[1], d(a[2]), d(a[3]));
                else if (f == "rcontact") addContactResistance(ri, a[1], a[2], a[3], d(a[4]));
                else if (f == "rvia") addViaResistance(ri, a[1], d(a[2]));
                else if (f == "csub") addSubstrateCap(ci, a[1], d(a[2]), d(a[3]));
                else if (f == "cover") addOverlapCap(ci, a[1], a[2], d(a[3]));
                else if (f == "cside") addSidewallCap(ci, a[1], d(a[2]), d(a[3]));
                else if (f == "cfringe") addSidewallOverlapCap(ci, a[1], a[2], d(a[3]));
                else return 9;
            }
            write(tech, argv[2], Format::JSON);
            return 0;
        }
    } catch (const std::exception &e) {
        std::cerr << "refused: " << e.what() << std::endl;
        return 5;
    }
    return 9;
}
