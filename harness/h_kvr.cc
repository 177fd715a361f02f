// Reads decks and answers queries:  lines "deck\tkind\tkey" on stdin.
#include "KeyValueReader.hh"
#include <cstdio>
#include <cstring>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>
using namespace CKG_Utils;

int main(int argc, char **argv)
{
    FILE *o = fopen(argv[1], "w");
    std::string line;
    KeyValueReader *k = NULL;
    std::vector<std::string> f;
    while (std::getline(std::cin, line)) {
        f.clear();
        std::istringstream is(line);
        std::string x;
        while (std::getline(is, x, '\t'))
            f.push_back(x);
        if (f[0] == "open") {
            delete k;
            k = new KeyValueReader();
            try { k->readFile(f[1]); fprintf(o, "ok\n"); }
            catch (...) { fprintf(o, "refused\n"); }
            continue;
        }
        try {
            if (f[0] == "s") { std::string v = "#"; k->getString(f[1], v); fprintf(o, "s %s\n", v.c_str()); }
            if (f[0] == "i") { int v = -77; k->getInt(f[1], v); fprintf(o, "i %d\n", v); }
            if (f[0] == "d") { double v = -77; k->getDouble(f[1], v); fprintf(o, "d %a\n", v); }
            if (f[0] == "f") { float v = -77; k->getFloat(f[1], v); fprintf(o, "f %a\n", (double)v); }
            if (f[0] == "b") { bool v = true; k->getBool(f[1], v); fprintf(o, "b %d\n", (int)v); }
        }
        catch (...) { fprintf(o, "refused\n"); }
    }
    fclose(o);
    return 0;
}
