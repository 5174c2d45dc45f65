// Small explicit exhaustive explorer: every harness enumerates a finite space of
// executions of the real library code, in a deterministic order, and compares each
// one with a reference model.  No sampling: a case is identified by (section, index).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <functional>
#include <iostream>
#include <stdexcept>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ctime>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
	return h;
}

struct Heartbeat { volatile uint64_t sec, idx, ticks; };

class Ctx
{
public:
	std::string tier = "quick", outFile, hbFile, knownFile, skipFile, scratch;
	uint64_t shard = 0, nshards = 1;
	bool only = false; uint64_t onlySec = 0, onlyIdx = 0;

	bool thorough() const { return tier == "thorough"; }
	// pick a bound by tier
	template<class T> T bound(T quick, T deep) const { return thorough() ? deep : quick; }

	// a section whose cases are independent: they are spread over the shards by index
	void section(const std::string& name, const std::string& rule)
	{
		open_section(name, rule, false);
	}
	// a section explored by one shard as a whole (breadth-first searches): returns true if this process does it
	bool bfs_section(const std::string& name, const std::string& rule)
	{
		open_section(name, rule, true);
		return _active;
	}

	template<class D, class B> void test(D desc, B body)
	{
		uint64_t i = _idx++;
		if (!_active) return;
		if (only) {
			if (_bfs ? i > onlyIdx : i != onlyIdx) return;
		}
		else if (!_bfs && (i % nshards) != shard) return;
		if (!_skip.empty() && _skip.count({ _sec,i })) return;
		if (_stopped || out_of_time()) return;
		run(i, std::function<std::string()>(desc), body);
	}

	void step(uint64_t n = 1) { _transitions += n; }                    // calls into the implementation
	void state(uint64_t h) { _states.insert(mix(h, _sec * 7919 + 1)); } // an explicit (canonical) state
	void obs(uint64_t v) { _obs = mix(_obs, v); _obsUsed = true; }      // observation folded into this case's state
	void obs(int v) { obs((uint64_t)(int64_t)v); }
	void obs(bool v) { obs((uint64_t)v); }
	void obs(double v) { float f = (float)v; if (f == 0) f = 0; uint32_t u; memcpy(&u, &f, 4); obs((uint64_t)u); }
	template<class P> void obsp(const P& p) { obs(p.x()); obs(p.y()); obs(p.z()); }

	bool replaying() const { return only; }
	bool failed_current() const { return _failedCur; }

	void fail(const std::string& key, const std::string& msg)
	{
		_failedCur = true;
		auto it = _fails.find(key);
		if (it != _fails.end()) { it->second.count++; return; }
		if (_fails.size() > 200 && !_known.count(key)) return;
		Fail f; f.sec = _sec; f.idx = _curIdx; f.key = key; f.msg = msg; f.desc = _curDesc ? _curDesc() : ""; f.count = 1; f.section = _secs.back().name;
		_fails[key] = f;
	}

	int finish()
	{
		std::ofstream o(outFile);
		o << "{\"sections\":[";
		for (size_t i = 0; i < _secs.size(); i++) {
			if (i) o << ",";
			o << "{\"name\":" << js(_secs[i].name) << ",\"rule\":" << js(_secs[i].rule) << ",\"cases\":" << _secs[i].cases << ",\"bfs\":" << (_secs[i].bfs ? "true" : "false") << "}";
		}
		o << "],\"transitions\":" << _transitions << ",\"traces\":" << _traces << ",\"notes\":[";
		bool first = true;
		for (auto& n : _notes) { if (!first) o << ","; first = false; o << js(n); }
		o << "],\"samples\":[";
		first = true;
		for (auto& s : _samples) { if (!first) o << ","; first = false; o << js(s); }
		o << "],\"failures\":[";
		first = true;
		for (auto& kv : _fails) {
			auto& f = kv.second;
			if (!first) o << ","; first = false;
			o << "{\"section\":" << js(f.section) << ",\"sec\":" << f.sec << ",\"idx\":" << f.idx << ",\"key\":" << js(f.key) << ",\"msg\":" << js(f.msg) << ",\"desc\":" << js(f.desc) << ",\"count\":" << f.count << "}";
		}
		o << "]}\n";
		o.close();
		std::ofstream b(outFile + ".states", std::ios::binary);
		size_t n = 0;
		for (uint64_t h : _states) { b.write((const char*)&h, 8); if (++n >= 3000000) break; }
		return 0;
	}
	void note(const std::string& s) { _notes.insert(s); }

	void init(int argc, char** argv)
	{
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto nxt = [&] { return std::string(argv[++i]); };
			if (a == "--tier") tier = nxt();
			else if (a == "--shard") shard = atoll(nxt().c_str());
			else if (a == "--nshards") nshards = atoll(nxt().c_str());
			else if (a == "--out") outFile = nxt();
			else if (a == "--hb") hbFile = nxt();
			else if (a == "--known") knownFile = nxt();
			else if (a == "--skip") skipFile = nxt();
			else if (a == "--scratch") scratch = nxt();
			else if (a == "--only") { only = true; onlySec = atoll(nxt().c_str()); onlyIdx = atoll(nxt().c_str()); }
		}
		if (outFile.empty()) outFile = "/dev/null";
		if (!hbFile.empty()) {
			int fd = open(hbFile.c_str(), O_RDWR);
			if (fd >= 0) { void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) _hb = (Heartbeat*)p; close(fd); }
		}
		if (!knownFile.empty()) { std::ifstream f(knownFile); std::string l; while (std::getline(f, l)) _known.insert(l); }
		if (!skipFile.empty()) { std::ifstream f(skipFile); uint64_t s, i; while (f >> s >> i) _skip.insert({ s,i }); }
		if (scratch.empty()) scratch = "/dev/shm";
	}

private:
	struct Sec { std::string name, rule; uint64_t cases = 0; bool bfs = false; };
	struct Fail { std::string section, key, msg, desc; uint64_t sec, idx, count; };

	// a broken library may be very slow: do not explore for long once there is something to report, and never beyond the deadline
	bool out_of_time()
	{
		if (only) return false;
		double t = now() - _start; bool unknown = false;
		if (t > 45) for (auto& f : _fails) if (!_known.count(f.first)) unknown = true;
		if (unknown || t > (thorough() ? 20000. : 500.)) { _stopped = true; note(unknown ? "stopped after a violation" : "stopped at the time limit"); }
		return _stopped;
	}
	static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
	double _start = now(); bool _stopped = false;

	void open_section(const std::string& name, const std::string& rule, bool bfs)
	{
		_sec = _secs.size();
		Sec s; s.name = name; s.rule = rule; s.bfs = bfs; _secs.push_back(s);
		_idx = 0; _bfs = bfs;
		_active = only ? (_sec == onlySec) : (!bfs || (_sec % nshards) == shard);
		_sampled = 0;
	}
	template<class B> void run(uint64_t i, std::function<std::string()> desc, B& body)
	{
		if (_hb) { _hb->sec = _sec; _hb->idx = i; _hb->ticks = _hb->ticks + 1; }
		_curIdx = i; _curDesc = desc; _failedCur = false; _obs = 0; _obsUsed = false;
		if (only && i == onlyIdx) { std::cout << "case: section=" << _secs.back().name << " index=" << i << "\n" << desc() << std::endl; }
		try { body(); }
		catch (const std::exception& e) { fail("exception:" + _secs.back().name, std::string("exception escaped: ") + e.what()); }
		_traces++; _secs.back().cases++;
		if (_obsUsed) _states.insert(mix(_obs, _sec * 7919 + 1));
		if (_sampled < 2 && (shard == 0 || _bfs) && _secs.back().cases % 37 == 1) { _samples.push_back(_secs.back().name + ": " + desc().substr(0, 400)); _sampled++; }
		_curDesc = nullptr;
	}
	static std::string js(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r + "\"";
	}

	std::vector<Sec> _secs; uint64_t _sec = 0, _idx = 0, _curIdx = 0; bool _bfs = false, _active = true; int _sampled = 0;
	std::function<std::string()> _curDesc; bool _failedCur = false;
	uint64_t _transitions = 0, _traces = 0, _obs = 0; bool _obsUsed = false;
	std::unordered_set<uint64_t> _states;
	std::map<std::string, Fail> _fails; std::vector<std::string> _samples; std::set<std::string> _known, _notes;
	std::set<std::pair<uint64_t, uint64_t>> _skip;
	Heartbeat* _hb = nullptr;
};

// string builder: mc::S() << a << b
class S
{
public:
	template<class T> S& operator<<(const T& t) { std::ostringstream o; o.precision(17); o << t; _s += o.str(); return *this; }
	S& operator<<(const std::string& t) { _s += t; return *this; }
	S& operator<<(const char* t) { _s += t; return *this; }
	operator std::string() const { return _s; }
	std::string str() const { return _s; }
private:
	std::string _s;
};
inline std::ostream& operator<<(std::ostream& o, const S& s) { return o << s.str(); }

} // namespace mc

#define MC_CHECK(c, cond, key, msg) do { if (!(cond)) (c).fail((key), (mc::S() << msg).str()); } while (0)

void run(mc::Ctx& c);
#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
	mc::Ctx c;
	c.init(argc, argv);
	run(c);
	return c.finish();
}
#endif
