// Driver of the bounded checks of cpp/src: public interface only.
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "enumerator.h"
#include "lin_recur.h"
#include "simulator.h"
#include "turing_machine.h"
using namespace busy_beaver;
static std::string dump(const TuringMachine& tm) {
  std::ostringstream o;
  for (int q = 0; q < tm.num_states(); ++q) {
    if (q) o << "_";
    for (int s = 0; s < tm.num_symbols(); ++s) {
      auto t = tm.Lookup(q, s);
      if (t.undecided) o << "---";
      else o << t.symbol << (t.move == 1 ? "R" : t.move == -1 ? "L" : "?") << (t.state < 0 ? 'Z' : char('A' + t.state));
    }
  }
  return o.str();
}
static void full(const TuringMachine& tm, std::ostream& o) {
  o << dump(tm) << "/" << tm.num_states() << "/" << tm.num_symbols() << "/" << tm.max_next_state() << "/" << tm.max_next_symbol() << "/" << tm.next_move_left_ok() << "/" << tm.num_halts();
  // values of undecided cells matter: they are simulated
  for (int q = 0; q < tm.num_states(); ++q) for (int s = 0; s < tm.num_symbols(); ++s) { auto t = tm.Lookup(q, s); if (t.undecided && !(t.symbol == 1 && t.move == 1 && t.state == -1)) { o << "/badcell"; return; } }
}
static unsigned long mix(const std::string& t, unsigned long seed) {
  unsigned long h = seed;
  for (char c : t) h = (h * 1000003UL + (unsigned char)c) % 2147483647UL;
  return h;
}
class Walk : public BaseEnumerator {
 public:
  Walk(bool allow, unsigned long seed, int one_in, long limit) : BaseEnumerator(allow), seed_(seed), one_in_(one_in), limit_(limit) {}
  long n = 0;
 private:
  EnumExpandParams filter_tm(const TuringMachine& tm) override {
    std::string t = dump(tm);
    std::cout << "m "; full(tm, std::cout); std::cout << "\n";
    std::vector<std::pair<int, int>> und;
    for (int q = 0; q < tm.num_states(); ++q) for (int s = 0; s < tm.num_symbols(); ++s) if (tm.Lookup(q, s).undecided) und.push_back({q, s});
    n += 1;
    if (und.empty() || n > limit_) return {false, 0, 0};
    unsigned long h = mix(t, seed_);
    if (n > 1 && h % one_in_ != 0) return {false, 0, 0};
    auto c = und[(h / 7) % und.size()];
    return {true, c.first, c.second};
  }
  unsigned long seed_; int one_in_; long limit_;
};
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string cmd; in >> cmd;
    if (cmd == "S") {
      std::string t; in >> t; std::istringstream is(t); TuringMachine* tm = ReadTuringMachine(&is, ""); DirectSimulator sim(*tm); std::string op;
      while (in >> op) {
        if (op[0] == 's') sim.Step();
        else if (op[0] == 'k') sim.Seek(std::stol(op.substr(1)));
        else if (op[0] == 'r') {
          long r = std::stol(op.substr(1)), c = sim.tape().position(); std::cout << sim.state() << " " << sim.step_num() << " " << c << " " << sim.is_halted();
          if (sim.step_num() > 0) std::cout << " " << sim.last_state() << " " << sim.last_symbol(); else std::cout << " x x";
          std::cout << " " << sim.tape().read() << " " << sim.tape().in_range(c) << " ";
          for (long p = -r; p <= r; ++p) std::cout << char('0' + sim.tape().read(p));
          Tape copy = sim.tape(); std::cout << " " << (copy.position() == c && copy.read() == sim.tape().read()) << ";";
        }
      }
      delete tm; std::cout << "\n";
    } else if (cmd == "L") {
      std::string t; long n; in >> t >> n; std::istringstream is(t); TuringMachine* tm = ReadTuringMachine(&is, ""); auto r = LinRecurDetect(*tm, n);
      std::cout << r.is_halted << " " << r.is_lin_recurrent << " " << r.lr_start_step << " " << r.lr_period << " " << r.lr_offset << " " << r.last_state << " " << r.last_symbol << " " << r.max_ref_config_step << " " << r.steps_run << "\n"; delete tm;
    } else if (cmd == "N") {
      int ns, nk; in >> ns >> nk; TuringMachine tm(ns, nk); full(tm, std::cout); std::cout << "\n";
    } else if (cmd == "E") {
      bool fresh, allow; int ns, nk, one; unsigned long seed; long limit; std::string t; in >> fresh >> ns >> nk >> t >> allow >> seed >> one >> limit;
      TuringMachine* tm; if (fresh) tm = new TuringMachine(ns, nk); else { std::istringstream is(t); tm = ReadTuringMachine(&is, ""); }
      Walk w(allow, seed, one, limit); w.enumerate(tm); std::cout << "end\n";
    } else if (cmd == "R") {
      // machines of a file, through both readers and the writer
      std::string fn; long n; in >> fn >> n;
      std::ifstream f(fn, std::ios::in | std::ios::binary); std::vector<std::string> all;
      while (TuringMachine* tm = ReadTuringMachine(&f, "")) { std::ostringstream o; full(*tm, o); o << "#"; WriteTuringMachine(*tm, &o); all.push_back(o.str()); delete tm; }
      std::cout << all.size(); for (auto& s : all) std::cout << " " << s;
      for (long i = 1; i <= n; ++i) { TuringMachine* tm = ReadTuringMachine(fn, i); std::cout << " "; if (tm) { full(*tm, std::cout); std::cout << "#"; WriteTuringMachine(*tm, &std::cout); delete tm; } else std::cout << "none"; }
      std::cout << "\n";
    }
    std::cout.flush();
  }
  return 0;
}
