// Bounded exhaustive exploration engine.
//
// A harness body is a deterministic program over choice points; explore() runs
// the body once per complete choice sequence, depth first, so that every
// combination of choices is executed exactly once. All ranks of an MPI run
// take the same choices. Choices taken before commit() are configuration
// choices (cheap, no code under test): the engine shards on them.
#ifndef VERIF_EXPLORE_HPP
#define VERIF_EXPLORE_HPP

#include <mpi.h>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace ex
{
struct Skip
{
};

inline std::string json_escape(std::string const &s)
{
  std::string r;
  for (char c : s)
  {
    if (c == '"' || c == '\\')
    {
      r += '\\';
      r += c;
    }
    else if (static_cast<unsigned char>(c) < 0x20 ||
             static_cast<unsigned char>(c) > 0x7e)
    {
      char buf[8];
      std::snprintf(buf, sizeof buf, "\\u%04x", static_cast<unsigned char>(c));
      r += buf;
    }
    else
      r += c;
  }
  return r;
}

struct Hash
{
  std::uint64_t h = 1469598103934665603ull;
  void bytes(void const *p, std::size_t n)
  {
    auto c = static_cast<unsigned char const *>(p);
    for (std::size_t i = 0; i < n; ++i)
    {
      h ^= c[i];
      h *= 1099511628211ull;
    }
  }
  Hash &operator<<(std::string const &s)
  {
    bytes(s.data(), s.size());
    return *this << std::uint64_t(s.size());
  }
  Hash &operator<<(char const *s) { return *this << std::string(s); }
  Hash &operator<<(std::uint64_t v)
  {
    bytes(&v, sizeof v);
    return *this;
  }
  Hash &operator<<(int v) { return *this << std::uint64_t(std::int64_t(v)); }
  Hash &operator<<(unsigned int v) { return *this << std::uint64_t(v); }
  Hash &operator<<(double v)
  {
    // round to 6 significant digits so that reordered floating point sums
    // count as the same observation
    char buf[32];
    if (std::abs(v) < 1e-9)
      v = 0;
    std::snprintf(buf, sizeof buf, "%.6e", v);
    return *this << std::string(buf);
  }
  template <typename T>
  Hash &operator<<(std::vector<T> const &v)
  {
    for (auto const &x : v)
      *this << x;
    return *this << std::uint64_t(v.size());
  }
};

class Run
{
public:
  Run(int argc, char **argv)
  {
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &size);
    for (int i = 1; i + 1 < argc; i += 2)
      _opt[argv[i]] = argv[i + 1];
    prop = opt("--prop", "");
    tier = opt("--tier", "quick");
    thorough = (tier == "thorough");
    _out = opt("--out", "");
    _reverse = opt("--reverse", "0") == "1";
    std::string shard = opt("--shard", "0/1");
    std::sscanf(shard.c_str(), "%d/%d", &_shard, &_n_shards);
    _deadline = std::atof(opt("--deadline", "0").c_str());
    std::string rp = opt("--replay", "");
    if (!rp.empty())
    {
      _replay = true;
      std::istringstream is(rp);
      std::string t;
      while (std::getline(is, t, ','))
        if (!t.empty() && t != "-")
          _path.push_back(std::atoi(t.c_str()));
    }
    std::string kf = opt("--known", "");
    if (!kf.empty())
    {
      std::ifstream in(kf);
      std::string line;
      while (std::getline(in, line))
        if (!line.empty())
          _known.insert(line);
    }
    _t0 = std::chrono::steady_clock::now();
  }

  std::string opt(std::string const &name, std::string const &dflt) const
  {
    auto it = _opt.find(name);
    return it == _opt.end() ? dflt : it->second;
  }

  int choose(int n, std::string const &label)
  {
    if (n <= 0)
      throw std::logic_error("choice point without alternatives: " + label);
    int c;
    if (_pos < _path.size())
    {
      c = _path[_pos];
      if (c >= n)
      {
        // A divergence while replaying a prefix is a hard error.
        std::cerr << "exploration diverged at " << label << " choice " << c
                  << " of " << n << " in " << description() << std::endl;
        MPI_Abort(MPI_COMM_WORLD, 70);
      }
    }
    else
    {
      c = 0;
      _path.push_back(0);
    }
    if (_width.size() <= _pos)
      _width.push_back(n);
    else
      _width[_pos] = n;
    ++_pos;
    // (the same tree from the other end: another history of the process)
    if (_reverse)
      c = n - 1 - c;
    _labels.push_back(label + "=" + std::to_string(c));
    ++choice_points;
    return c;
  }

  template <typename T>
  T pick(std::string const &label, std::vector<T> const &v)
  {
    int c = choose(v.size(), label);
    std::ostringstream os;
    os << label << "=" << v[c];
    _labels.back() = os.str();
    return v[c];
  }
  // same, for values that cannot be printed
  template <typename T>
  T const &pick_from(std::string const &label, std::vector<T> const &v)
  {
    return v[choose(v.size(), label)];
  }
  void note(std::string const &s) { _labels.push_back(s); }

  // End of the configuration choices: from here on the code under test runs.
  void commit()
  {
    _committed = true;
    if (!_replay)
    {
      // Shard on configurations: all executions that share this configuration
      // prefix belong to the same shard
      if (_config_prefix.empty() ||
          std::vector<int>(_path.begin(), _path.begin() + _pos) !=
              _config_prefix)
      {
        _config_prefix.assign(_path.begin(), _path.begin() + _pos);
        if (_config_prefix.empty())
          _config_prefix.push_back(-1);
        ++configs_seen;
        _mine = ((configs_seen - 1) % _n_shards == std::uint64_t(_shard));
        if (_mine)
          ++configs;
      }
      if (!_mine)
        throw Skip();
    }
    write_case();
  }

  // invalid combination of choices: not an execution
  void reject() { throw Skip(); }

  void step(std::uint64_t n = 1) { transitions += n; }

  void observe(Hash const &h) { states.insert(h.h); }

  // A result that may depend on nothing but what the key names. Recorded by
  // every process that computes it; all of them are compared at the end.
  // Collective.
  void record(std::string const &key, double value)
  {
    MPI_Allreduce(MPI_IN_PLACE, &value, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    auto it = _records.emplace(key, value).first;
    check(std::abs(it->second - value) <= 1e-9 * (1. + std::abs(value)),
          "history", key + ": another result than earlier in this process");
  }
  void record(std::string const &key, Hash const &h)
  {
    record(key, double(h.h >> 16));
  }

  bool check(bool ok, std::string const &key, std::string const &msg)
  {
    ++checks;
    if (!ok && !_failed)
    {
      _failed = true;
      _fail_key = key;
      _fail_msg = msg;
    }
    return ok;
  }
  bool failed() const { return _failed; }

  std::string description() const
  {
    std::string s;
    for (auto const &l : _labels)
      s += (s.empty() ? "" : " ") + l;
    return s;
  }

  template <typename Body>
  int explore(Body &&body)
  {
    bool more = true;
    while (more)
    {
      _pos = 0;
      _labels.clear();
      _failed = false;
      _committed = false;
      bool skipped = false;
      std::vector<int> const before = _path;
      try
      {
        body(*this);
      }
      catch (Skip const &)
      {
        skipped = true;
      }
      catch (std::exception const &e)
      {
        abort_with("exception", std::string("unexpected exception: ") +
                                    e.what());
      }
      catch (...)
      {
        abort_with("exception", "unexpected exception of unknown type");
      }
      _path.resize(_pos);
      _width.resize(_pos);
      if (!skipped)
      {
        ++executions;
        sync_failure();
        if (_failed)
        {
          if (_known.count(_fail_key))
          {
            if (rank == 0 && _known_hit.insert(_fail_key).second)
              known_lines.push_back(_fail_key);
          }
          else
          {
            if (rank == 0)
              record_violation(_fail_key, _fail_msg);
            finish(true);
            return 1;
          }
        }
        if (rank == 0 && executions % _sample_every == 0 &&
            samples.size() < 12)
        {
          samples.push_back(description());
          _sample_every *= 5;
        }
      }
      if (_replay)
      {
        finish(false);
        if (rank == 0)
          std::cout << "replay: no violation" << std::endl;
        return 0;
      }
      // advance
      more = false;
      while (!_path.empty())
      {
        if (_path.back() + 1 < _width.back())
        {
          ++_path.back();
          more = true;
          break;
        }
        _path.pop_back();
        _width.pop_back();
      }
      if (more && _deadline > 0 && !skipped)
      {
        int stop = 0;
        if (rank == 0)
          stop = elapsed() > _deadline;
        MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
        if (stop)
        {
          exhaustive = false;
          break;
        }
      }
    }
    finish(false);
    return 0;
  }

  double elapsed() const
  {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - _t0)
        .count();
  }

  std::vector<int> const &path() const { return _path; }

  int rank = 0, size = 1;
  std::string prop, tier;
  bool thorough = false;
  bool exhaustive = true;
  std::uint64_t executions = 0, transitions = 0, checks = 0, choice_points = 0,
                configs = 0, configs_seen = 0;
  std::unordered_set<std::uint64_t> states;
  std::vector<std::string> samples, known_lines;

private:
  std::string path_string() const
  {
    std::string s;
    for (std::size_t i = 0; i < _pos && i < _path.size(); ++i)
      s += (i ? "," : "") + std::to_string(_path[i]);
    return s.empty() ? "-" : s;
  }

  void write_case()
  {
    if (_out.empty() || rank != 0)
      return;
    // (the choices that follow are known already, up to the first new one)
    std::string s;
    for (std::size_t i = 0; i < _path.size(); ++i)
      s += (i ? "," : "") + std::to_string(_path[i]);
    s = (s.empty() ? "-" : s) + "\n" + description() + "\n";
    FILE *f = std::fopen((_out + ".case").c_str(), "w");
    if (f)
    {
      std::fwrite(s.data(), 1, s.size(), f);
      std::fclose(f);
    }
  }

  void record_violation(std::string const &key, std::string const &msg)
  {
    std::ostringstream os;
    os << "{\"key\": \"" << json_escape(key) << "\", \"message\": \""
       << json_escape(msg) << "\", \"path\": \"" << path_string()
       << "\", \"case\": \"" << json_escape(description()) << "\"}\n";
    if (!_out.empty())
    {
      std::string name = _out + ".viol";
      FILE *f = std::fopen(name.c_str(), "w");
      if (f)
      {
        std::string s = os.str();
        std::fwrite(s.data(), 1, s.size(), f);
        std::fclose(f);
      }
    }
    if (rank == 0 || _out.empty())
      std::cout << "violation: " << os.str() << std::flush;
  }

  void abort_with(std::string const &key, std::string const &msg)
  {
    std::cerr << "rank " << rank << ": " << msg << " in " << description()
              << std::endl;
    record_violation(key, "rank " + std::to_string(rank) + ": " + msg);
    if (size > 1)
      MPI_Abort(MPI_COMM_WORLD, 71);
    std::_Exit(71);
  }

  void sync_failure()
  {
    if (size == 1)
      return;
    int mine = _failed ? rank : size, first = size;
    MPI_Allreduce(&mine, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    if (first == size)
      return;
    auto bcast = [&](std::string &s)
    {
      int n = s.size();
      MPI_Bcast(&n, 1, MPI_INT, first, MPI_COMM_WORLD);
      s.resize(n);
      MPI_Bcast(&s[0], n, MPI_CHAR, first, MPI_COMM_WORLD);
    };
    bcast(_fail_key);
    if (first == rank)
      _fail_msg = "rank " + std::to_string(rank) + ": " + _fail_msg;
    bcast(_fail_msg);
    _failed = true;
    if (rank != 0)
      return;
  }

  void finish(bool violated)
  {
    std::uint64_t sum[2] = {transitions, checks}, tot[2] = {0, 0};
    MPI_Reduce(sum, tot, 2, MPI_UINT64_T, MPI_SUM, 0, MPI_COMM_WORLD);
    if (rank != 0 || _out.empty())
    {
      if (rank == 0)
        std::cout << "executions " << executions << " states " << states.size()
                  << " transitions " << tot[0] << " checks " << tot[1]
                  << " configs " << configs << " time " << elapsed()
                  << std::endl;
      return;
    }
    std::ostringstream os;
    os << "{\"executions\": " << executions << ", \"transitions\": " << tot[0]
       << ", \"checks\": " << tot[1] << ", \"configs\": " << configs
       << ", \"violated\": " << (violated ? "true" : "false")
       << ", \"exhaustive\": " << (exhaustive ? "true" : "false")
       << ", \"seconds\": " << elapsed() << ", \"samples\": [";
    for (std::size_t i = 0; i < samples.size(); ++i)
      os << (i ? ", " : "") << '"' << json_escape(samples[i]) << '"';
    os << "], \"known\": [";
    for (std::size_t i = 0; i < known_lines.size(); ++i)
      os << (i ? ", " : "") << '"' << json_escape(known_lines[i]) << '"';
    os << "], \"records\": {";
    os.precision(17);
    {
      bool first = true;
      for (auto const &r : _records)
      {
        os << (first ? "" : ", ") << '"' << json_escape(r.first)
           << "\": " << r.second;
        first = false;
      }
    }
    os << "}, \"states\": [";
    bool first = true;
    for (auto s : states)
    {
      os << (first ? "" : ", ") << s;
      first = false;
    }
    os << "]}\n";
    std::ofstream f(_out);
    f << os.str();
  }

  std::map<std::string, std::string> _opt;
  std::map<std::string, double> _records;
  bool _reverse = false;
  std::set<std::string> _known, _known_hit;
  std::vector<int> _path, _width, _config_prefix;
  std::vector<std::string> _labels;
  std::size_t _pos = 0;
  int _shard = 0, _n_shards = 1;
  bool _mine = false, _replay = false, _failed = false, _committed = false;
  double _deadline = 0;
  std::uint64_t _sample_every = 1;
  std::string _out, _fail_key, _fail_msg;
  std::chrono::steady_clock::time_point _t0;
};
} // namespace ex
#endif
