#pragma once
#include <string>
#include <vector>
namespace jobs {
enum { GATES, MINIMISE, READ, IPASIR, RSAR, CHECK, N_OTHER };
struct Result { int answer = 0, extra = 0; std::vector<int> model; };
int count(); int nprofiles(); std::string name(int j); void configure(int profile);
Result run(int j, const std::vector<std::vector<int>>& f, int n, const char* in, const char* proof);
void write_proof(const std::vector<std::vector<int>>& f, const char* path);
}
