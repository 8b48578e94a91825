// Runs the text helpers of codon/parser/common.cpp on hex-encoded inputs read from stdin.
#include "codon/parser/common.h"
#include <iostream>
#include <sstream>
using namespace std;
using namespace codon::ast;
static string unhex(const string &h) { string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static string hex(const string &s) { if (s.empty()) return "-"; string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
int main() {
  string line;
  while (getline(cin, line)) {
    istringstream is(line); string f; is >> f;
    auto S = [&] { string x; is >> x; return unhex(x); };
    auto I = [&] { long x; is >> x; return x; };
    auto L = [&] { vector<string> v; long n = I(); while (n--) v.push_back(S()); return v; };
    auto ps = [&](const string &s) { cout << "s " << hex(s); };
    try {
      if (f == "unescape") ps(unescape(S()));
      else if (f == "roundtrip") ps(unescape(escape(S())));
      else if (f == "braces") { auto s = S(); int a = I(), b = I(); ps(escapeFStringBraces(s, a, b)); }
      else if (f == "findStar") cout << "i " << findStar(S());
      else if (f == "startswith") { auto s = S(), t = S(); cout << "i " << startswith(s, t); }
      else if (f == "endswith") { auto s = S(), t = S(); cout << "i " << endswith(s, t); }
      else if (f == "in") { auto s = S(), t = S(); cout << "i " << (int)in(s, t); }
      else if (f == "inc") { auto s = S(); char c = (char)I(); cout << "i " << (int)in(s, c); }
      else if (f == "ltrim") { auto s = S(); ltrim(s); ps(s); }
      else if (f == "rtrim") { auto s = S(); rtrim(s); ps(s); }
      else if (f == "isdigit") cout << "i " << (int)codon::ast::isdigit(S());
      else if (f == "split") { auto s = S(); char c = (char)I(); cout << "l"; for (auto &x : split(s, c)) cout << " " << hex(x); }
      else if (f == "join") { auto d = S(); auto l = L(); ps(join(l, d)); }
      else if (f == "joinr") { auto d = S(); size_t a = I(); long b = I(); auto l = L(); ps(join(l, d, a, b)); }
    } catch (exception &e) { cout << "exc " << e.what(); }
    cout << endl;
  }
}
