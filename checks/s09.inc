// S09: type hashes of every pair of the enumerated types.
namespace {

constexpr auto const kRows = static_cast<int>(sizeof(rows) / sizeof(rows[0]));

struct printer {  // second process: writes the hashes and ends
  printer() {
    if (auto const* f = getenv("S09_PRINT")) {
      auto* o = fopen(f, "wb");
      for (auto i = kRows; i-- != 0;) {  // other order than in the first
        cista::hash_t const h[2] = {rows[i].dyn_(), rows[i].stat_()};
        fwrite(h, sizeof(h), 1, o);
      }
      fclose(o);
      _exit(0);
    }
  }
} const printer_;

void compare(char const* kind, cista::hash_t (*row::*fn)()) {
  static std::vector<cista::hash_t> h;
  h.clear();
  for (auto const& r : rows) {
    h.push_back((r.*fn)());
  }
  auto const i = mc::choose(kRows);
  mc::op("compare");
  auto const& a = rows[i];
  mc::logf("%s hash of %s", kind, a.name_);
  MC_CHECK((a.*fn)() == h[static_cast<unsigned>(i)], "unstable",
           "second call gives another %s hash for %s", kind, a.name_);
  row const* nesting = nullptr;
  for (auto j = 0; j != kRows; ++j) {
    auto const& b = rows[j];
    auto const eq = h[static_cast<unsigned>(i)] == h[static_cast<unsigned>(j)];
    if (a.color_ != b.color_ && eq) {
      MC_CHECK(a.flat_ == b.flat_, "collision", "equal %s hashes of %s and %s",
               kind, a.name_, b.name_);
      nesting = &b;
    }
  }
  mc::checked(static_cast<std::uint64_t>(kRows));
  mc::step();
  mc::state(mc::H{}(h[static_cast<unsigned>(i)]));
  MC_CHECK(nesting == nullptr, "nesting",
           "equal %s hashes of %s and %s (ends of nested types)", kind, a.name_,
           nesting->name_);
}

void twins(char const* kind, cista::hash_t (*row::*fn)(),
           cista::hash_t (*row::*twin)()) {
  auto const i = mc::choose(kRows);
  mc::op("twin");
  auto const& a = rows[i];
  MC_CHECK((a.*fn)() == (a.*twin)(), "renamed",
           "renaming the structs changes the %s hash of %s", kind, a.name_);
  mc::checked();
  mc::step();
  mc::state(mc::H{}((a.*fn)()));
}

}  // namespace

MC_SCENARIO("pairs, dynamic", 0, 0) { compare("dynamic", &row::dyn_); }
MC_SCENARIO("renamed, dynamic", 0, 0) { twins("dynamic", &row::dyn_, &row::twin_dyn_); }
#ifndef ONLY_DYNAMIC
MC_SCENARIO("pairs, static", 0, 0) { compare("static", &row::stat_); }
MC_SCENARIO("renamed, static", 0, 0) { twins("static", &row::stat_, &row::twin_stat_); }
#endif
MC_SCENARIO("another process", 0, 0) {
  std::string exe(4096, 0);
  exe.resize(static_cast<unsigned>(readlink("/proc/self/exe", exe.data(), 4095)));
  auto const f = "print" + std::to_string(getpid());
  auto const cmd = "S09_PRINT='" + f + "' '" + exe + "'";
  MC_CHECK(system(cmd.c_str()) == 0, "second-process", "second process failed");
  auto* in = fopen(f.c_str(), "rb");
  for (auto i = kRows; i-- != 0;) {
    cista::hash_t h[2];
    MC_CHECK(in != nullptr && fread(h, sizeof(h), 1, in) == 1, "second-process", "no output");
    MC_CHECK(h[0] == rows[i].dyn_() && h[1] == rows[i].stat_(), "process",
             "hash of %s differs in another process", rows[i].name_);
    mc::checked();
  }
  fclose(in);
  unlink(f.c_str());
  mc::step();
}
