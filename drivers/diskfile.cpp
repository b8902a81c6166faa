// S07: files on disk against an ideal byte array; open modes; times; locks; failures.
#include "fstreams.hpp"
#include <sys/wait.h>
using namespace vh;
using sx::file;

static std::vector<uint8_t> slurp(const std::string& p)
{
	std::vector<uint8_t> v;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return v;
	uint8_t b[4096];
	for (ssize_t n; (n = ::read(fd, b, sizeof(b))) > 0;) v.insert(v.end(), b, b + n);
	::close(fd);
	return v;
}
static void spit(const std::string& p, const std::vector<uint8_t>& v)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	size_t done = 0;
	while (done < v.size()) { ssize_t n = ::write(fd, v.data() + done, v.size() - done); if (n <= 0) break; done += n; }
	::close(fd);
}
// Descriptors open on a file. (Not all descriptors: the sanitizer runtime opens some of its own at times.)
static unsigned open_fds(const std::string& path)
{
	unsigned n = 0;
	struct stat a, b;
	if (stat(path.c_str(), &a)) return 0;
	for (int i = 0; i < 256; i++) n += fstat(i, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
	return n;
}

VH_GROUP(history, 4000, 60000, 2000)
{
	auto& r = c.rng;
	auto path = scratch().file("h");
	unlink(path.c_str());
	IdealFile m;
	if (r.coin()) { m.d = data_bytes(r, r.size(300)); spit(path, m.d); }
	{
		std::unique_ptr<file> f(new file(path, sx::mode_for_reading | sx::mode_for_writing | sx::mode_preserve_existing | sx::mode_binary));
		std::unique_ptr<Stepper> s(new Stepper{ c, *f, m });
		s->tag = "file:";
		if (!f->ok() || !*f) { c.fail("open", "cannot open"); return; }
		for (unsigned i = 0, n = 10 + static_cast<unsigned>(r.below(60)); i < n && !c.failed; i++) {
			if (r.chance(1, 14)) {
				// Open again: the object itself, a new one, or a copy or move of it (same file description for a copy).
				auto old = std::move(s);
				bool append = r.coin();
				int mode = sx::mode_for_reading | sx::mode_for_writing | (r.coin() ? sx::mode_open_existing : sx::mode_preserve_existing) | (append ? sx::mode_append : 0);
				switch (r.below(5)) {
				case 0: old->note(fmt("reopen%d", append)); f->open(path, mode); m.pos = append ? m.d.size() : 0; break;
				case 1: old->note(fmt("new%d", append)); f.reset(); f.reset(new file(path, mode)); m.pos = append ? m.d.size() : 0; break;
				case 2: { old->note("copy"); std::unique_ptr<file> g(new file(*f)); f->close(); f = std::move(g); break; }
				case 3: { old->note("move"); std::unique_ptr<file> g(new file(std::move(*f))); f = std::move(g); break; }
				default: { old->note("close,open"); f->close(); if (!f->ok() || *f) c.fail("close", "file is open after close"); f->open(path.c_str(), mode); m.pos = append ? m.d.size() : 0; }
				}
				bool opened = old->trace.compare(old->trace.rfind(' ') + 1, 4, "copy") && old->trace.compare(old->trace.rfind(' ') + 1, 4, "move");
				s.reset(new Stepper{ c, *f, m });
				s->tag = "file:";
				s->trace = old->trace; s->sg = old->sg; s->ops = old->ops;
				if (opened ? !f->ok() : !*f) s->bad("open", "cannot open again");
				s->compare();
				continue;
			}
			if (r.chance(1, 16)) {
				s->note("lock");
				uint64_t at = r.below(400), len = r.below(100);
				f->lock(at, len);
				s->expect_state(state_t::ok, "lock");
				s->compare();
				f->unlock(at, len);
				s->expect_state(state_t::ok, "unlock");
				s->compare();
				continue;
			}
			if (r.chance(1, 16)) {
				s->note("flush");
				f->flush();
				s->expect_state(state_t::ok, "flush");
				if (slurp(path) != m.d) s->bad("disk", "content on disk differs after flush");
				continue;
			}
			s->step();
		}
		c.count("operations", s->ops);
		c.sig(s->sg);
		c.sample(s->trace);
	}
	if (!c.failed && slurp(path) != m.d) c.fail("file:disk", "content on disk differs");
	if (open_fds(path)) c.fail("file:descriptors", "%u descriptors left open", open_fds(path));
}

// What each combination of open mode does, by its documentation.
VH_GROUP(modes, 3000, 20000, 200)
{
	auto& r = c.rng;
	auto path = scratch().file("m");
	unlink(path.c_str());
	bool exists = r.coin();
	auto before = data_bytes(r, 1 + r.below(100));
	if (exists) spit(path, before);
	int rw = r.one<int>({ sx::mode_for_reading, sx::mode_for_writing, sx::mode_for_reading | sx::mode_for_writing });
	int disp = r.one<int>({ sx::mode_open_existing, sx::mode_truncate_existing, sx::mode_preserve_existing, sx::mode_create_new, sx::mode_create });
	bool append = r.coin();
	int hints = (r.coin() ? sx::mode_binary : 0) | (r.coin() ? sx::share_all : 0) | (r.chance(1, 4) ? sx::hint_write_thru : 0) | (r.coin() ? sx::hint_sequential_access : 0) | (r.coin() ? sx::hint_random_access : 0) | (r.chance(1, 4) ? sx::hint_no_buffering : 0);
	bool trunc = disp == sx::mode_truncate_existing || disp == sx::mode_create;
	if (trunc && rw == sx::mode_for_reading) return; // Truncating a file opened for reading only is unspecified on POSIX
	bool want_ok = disp == sx::mode_create_new ? !exists : disp == sx::mode_open_existing || disp == sx::mode_truncate_existing ? exists : true;
	auto what = fmt("rw=%d disposition=%d append=%d exists=%d", rw, disp >> 3, append, exists);
	int mode = rw | disp | (append ? sx::mode_append : 0) | hints;
	bool cached = r.chance(1, 3);
	std::vector<uint8_t> now = trunc || !exists ? std::vector<uint8_t>() : before;
	auto run = [&](auto& f) {
		if (static_cast<bool>(f) != want_ok || f.ok() != want_ok) { c.fail("mode-open", "%s: open %s, state %s", what.c_str(), f ? "succeeded" : "failed", sname(f.state())); return; }
		if (!want_ok) return;
		size_t at = append ? now.size() : 0;
		if (f.tell() != at || f.size() != now.size()) c.fail("mode-position", "%s: position %lld of %lld, want %zu of %zu", what.c_str(), (long long)f.tell(), (long long)f.size(), at, now.size());
		auto add = data_bytes(r, 1 + r.below(20));
		if (rw & sx::mode_for_writing) {
			size_t n = f.write(add.data(), add.size());
			if (n != add.size() || !f.ok()) c.fail("mode-write", "%s: write returned %zu", what.c_str(), n);
			if (now.size() < at + add.size()) now.resize(at + add.size());
			memcpy(now.data() + at, add.data(), add.size());
		}
		else if (!cached) {
			size_t n = f.write(add.data(), add.size());
			if (n || f.ok()) c.fail("mode-readonly", "%s: write to a file open for reading returned %zu, state %s", what.c_str(), n, sname(f.state()));
			f.seekbeg(0);
			f.truncate();
			if (f.ok()) c.fail("mode-readonly", "%s: truncated a file open for reading", what.c_str());
		}
		f.seekbeg(0);
		std::vector<uint8_t> got(now.size() + 5);
		size_t n = f.read(got.data(), got.size());
		got.resize(n);
		if (rw & sx::mode_for_reading) {
			if (got != now) c.fail("mode-read", "%s: read %zu bytes, want %zu", what.c_str(), n, now.size());
		}
		else if (!cached && (n || f.ok())) c.fail("mode-writeonly", "%s: read from a file open for writing returned %zu", what.c_str(), n);
	};
	// By a new object, or by one that has failed or holds another file.
	unsigned how = static_cast<unsigned>(r.below(4));
	auto other = scratch().file("other");
	if (how) spit(other, data_bytes(r, 10));
	auto again = [&](auto& f) {
		uint8_t b[3];
		if (how == 2) { f.open(path + "/none", mode); if (f.ok() || f) c.fail("mode-open", "open of an impossible path succeeded"); }
		else { f.open(other, sx::mode_for_reading | sx::mode_open_existing); if (f.read(b, 3) != 3) c.fail("mode-open", "cannot read the other file"); }
		if (how == 3) { f.seekend(0); f.read(b, 3); }
		f.open(path, mode);
		if (open_fds(other)) c.fail("mode-leak", "%s: file held before is still open", what.c_str());
		run(f);
	};
	what += fmt(" object=%u", how);
	if (cached) { if (how) { sx::cached_file f; again(f); } else { sx::cached_file f(path, mode); run(f); } }
	else { if (how) { file f; again(f); } else { file f(path, mode); run(f); } }
	if (want_ok && slurp(path) != now) c.fail("mode-disk", "%s: content on disk differs", what.c_str());
	if (!want_ok && (file::exists(path) != exists || (exists && slurp(path) != before))) c.fail("mode-failed-open", "%s: failed open changed the disk", what.c_str());
	c.sig(what + fmt(" %d %d", hints, cached));
	c.sample(what);
}

// Times read back as set, existence and read-only flag, failed handles.
VH_GROUP(attributes, 3000, 20000, 500)
{
	auto& r = c.rng;
	auto path = scratch().file("a");
	chmod(path.c_str(), 0600);
	unlink(path.c_str());
	if (file::exists(path) || file::readonly(path)) c.fail("exists", "file that does not exist reported");
	file f(path, sx::mode_for_reading | sx::mode_for_writing | sx::mode_create);
	if (!file::exists(path.c_str())) c.fail("exists", "file that exists not reported");
	{ // whatever kind it is
		auto odd = scratch().file("odd"), to = scratch().file("odd2");
		unlink(odd.c_str()); rmdir(odd.c_str()); unlink(to.c_str());
		unsigned kind = static_cast<unsigned>(r.below(3));
		if (kind == 0 ? mkdir(odd.c_str(), 0700) : kind == 1 ? mkfifo(odd.c_str(), 0600) : symlink(path.c_str(), odd.c_str())) c.fail("exists", "cannot prepare");
		if (!file::exists(odd) || !file::exists(odd.c_str())) c.fail("exists", "%s that exists not reported", kind == 0 ? "folder" : kind == 1 ? "pipe" : "link");
		if (file::readonly(odd)) c.fail("readonly", "kind %u reported as read-only", kind);
		if (kind == 0) rmdir(odd.c_str()); else unlink(odd.c_str());
		if (file::exists(odd)) c.fail("exists", "what was removed still exists");
	}
	bool ro = r.coin();
	chmod(path.c_str(), ro ? r.one<::mode_t>({ 0400, 0444, 0500, 0 }) : r.one<::mode_t>({ 0600, 0644, 0220, 0200 }));
	if (file::readonly(path) != ro) c.fail("readonly", "readonly() is %d", !ro);
	auto at = sx::clock::from_time_t(r.range(r.chance(1, 4) ? -1000000 : 0, 4000000000ll)), mt = sx::clock::from_time_t(r.range(0, 4000000000ll));
	f.set_atime(at);
	f.set_mtime(mt);
	if (f.atime() != at) c.fail("atime", "access time is %lld, set %lld", (long long)sx::clock::to_time_t(f.atime()), (long long)sx::clock::to_time_t(at));
	if (f.mtime() != mt) c.fail("mtime", "modification time is %lld, set %lld", (long long)sx::clock::to_time_t(f.mtime()), (long long)sx::clock::to_time_t(mt));
	// Setting one leaves the other.
	auto mt2 = mt + std::chrono::seconds(r.range(-100, 100));
	f.set_mtime(mt2);
	if (f.atime() != at || f.mtime() != mt2) c.fail("times", "setting the modification time changed the access time");
	struct stat sb;
	stat(path.c_str(), &sb);
	if (sb.st_mtime != sx::clock::to_time_t(mt2) || sb.st_atime != sx::clock::to_time_t(at)) c.fail("times-disk", "times on disk differ");
	c.sig(fmt("%lld %lld", (long long)sb.st_mtime, (long long)sb.st_atime));

	// A file that is not open fails everything.
	file n(r.coin() ? std::string("/nonexistent/x") : path + "/x", sx::mode_for_reading | sx::mode_for_writing | sx::mode_preserve_existing);
	uint8_t b[8] = {};
	if (n || n.ok()) c.fail("closed", "open of an impossible path succeeded");
	if (n.read(b, 8) != 0 || n.state() != state_t::fail) c.fail("closed", "read from a closed file");
	if (n.write(b, 8) != 0 || n.state() != state_t::fail) c.fail("closed", "write to a closed file");
	if (n.seek(0) != sx::fpos_max || n.state() != state_t::fail) c.fail("closed", "seek in a closed file");
	if (n.tell() != sx::fpos_max || n.size() != sx::fsize_max) c.fail("closed", "position or size of a closed file");
	n.truncate();
	if (n.ok()) c.fail("closed", "truncate of a closed file");
	n.flush();
	if (n.ok()) c.fail("closed", "flush of a closed file");
	n.lock(0, 1);
	if (n.ok()) c.fail("closed", "lock of a closed file");
	file bad(stdex::invalid_handle, state_t::fail);
	if (bad.ok()) c.fail("closed", "initial state lost");
	// Full device.
	file full("/dev/full", sx::mode_for_writing | sx::mode_open_existing);
	size_t k = full.write(b, 1 + r.below(8));
	if (k || full.state() != state_t::fail) c.fail("full", "write to a full device returned %zu, state %s", k, sname(full.state()));
	// Position that cannot exist.
	if (f.seek(-1 - static_cast<int64_t>(r.below(1000))) != sx::fpos_max || f.ok()) c.fail("seek-negative", "negative position accepted");
}

// Locks exclude another process.
VH_GROUP(locks, 60, 400, 20)
{
	auto& r = c.rng;
	auto path = scratch().file("l");
	spit(path, data_bytes(r, 100));
	file f(path, sx::mode_for_reading | sx::mode_for_writing | sx::mode_open_existing);
	uint64_t at = r.below(90), len = 1 + r.below(20), pos = r.below(100);
	f.seekbeg(pos);
	f.lock(at, len);
	if (!f.ok() || f.tell() != pos) c.fail("lock", "lock failed or moved the position");
	auto probe = [&](uint64_t o) -> bool { // locked for another process?
		pid_t p = fork();
		if (!p) {
			int fd = open(path.c_str(), O_RDWR);
			lseek(fd, static_cast<off_t>(o), SEEK_SET);
			_exit(lockf(fd, F_TEST, 1) ? 1 : 0);
		}
		int st = 0;
		waitpid(p, &st, 0);
		return WEXITSTATUS(st) == 1;
	};
	if (!probe(at) || !probe(at + len - 1)) c.fail("lock-range", "range %llu+%llu is not locked", (unsigned long long)at, (unsigned long long)len);
	if (probe(at + len) || (at && probe(at - 1))) c.fail("lock-range", "bytes beside %llu+%llu are locked", (unsigned long long)at, (unsigned long long)len);
	f.unlock(at, len);
	if (!f.ok() || f.tell() != pos) c.fail("unlock", "unlock failed or moved the position");
	if (probe(at) || probe(at + len - 1)) c.fail("lock-range", "range is locked after unlock");
	// What another process has locked is waited for.
	Guard g(c, "lock-hang", 60);
	int ready[2];
	if (pipe(ready)) return;
	uint64_t theirs = at + r.below(len);
	unsigned wait = static_cast<unsigned>(r.below(15000));
	pid_t p = fork();
	if (!p) {
		int fd = open(path.c_str(), O_RDWR);
		lseek(fd, static_cast<off_t>(theirs), SEEK_SET);
		char b = lockf(fd, F_LOCK, 1) ? 'n' : 'y';
		if (::write(ready[1], &b, 1) != 1) _exit(1);
		usleep(wait);
		b = 0;
		_exit(pwrite(fd, &b, 1, static_cast<off_t>(theirs)) != 1); // which gives the lock up
	}
	char b = 0;
	if (p < 0 || ::read(ready[0], &b, 1) != 1 || b != 'y') c.fail("lock-wait", "cannot prepare");
	f.lock(at, len);
	if (!f.ok()) c.fail("lock-wait", "range locked by another process for %u us: state %s", wait, sname(f.state()));
	auto now = slurp(path);
	if (f.ok() && (now.size() <= theirs || now[theirs])) c.fail("lock-wait", "locked while another process holds byte %llu", (unsigned long long)theirs);
	f.unlock(at, len);
	::close(ready[0]);
	::close(ready[1]);
	int st = 0;
	if (p > 0) waitpid(p, &st, 0);
	c.sig(fmt("%llu %llu %llu", (unsigned long long)at, (unsigned long long)len, (unsigned long long)pos));
}

// Histories of locks against a map of locked bytes as another process sees them; what cannot be locked is reported.
VH_GROUP(lock_history, 120, 1500, 60)
{
	auto& r = c.rng;
	auto path = scratch().file("lh");
	spit(path, data_bytes(r, r.below(150)));
	file f(path, sx::mode_for_reading | sx::mode_for_writing | sx::mode_open_existing);
	std::vector<char> held(160, 0);
	std::string hist;
	int steps = 2 + static_cast<int>(r.below(8));
	uint64_t pos = r.below(200);
	f.seekbeg(pos);
	for (int i = 0; i < steps; i++) {
		switch (r.below(6)) {
		case 0: { // what does not fit the system's offsets
			uint64_t at = r.coin() ? r.below(100) : (1ull << 63) + r.below(3) * r.below(100), len = at >> 63 && r.coin() ? 1 + r.below(100) : UINT64_MAX - r.below(3) * r.below(1000);
			bool un = r.coin(), refused = false;
			try {
				if (un) f.unlock(at, len);
				else f.lock(at, len);
				refused = !f.ok();
			}
			catch (const std::invalid_argument&) { refused = true; }
			if (!refused) c.fail("lock-far", "%s of %llu+%llu reported success", un ? "unlock" : "lock", (unsigned long long)at, (unsigned long long)len);
			hist += "far ";
			break;
		}
		case 1: { // handle that cannot be locked for writing
			file ro(path, sx::mode_for_reading | sx::mode_open_existing);
			// Closing any descriptor of the file drops this process's locks.
			ro.seekbeg(3);
			ro.lock(10, 5);
			if (ro.ok()) c.fail("lock-readonly", "exclusive lock on a handle opened for reading reported success");
			if (ro.tell() != 3) c.fail("lock-moved", "failed lock moved the position");
			ro.close();
			std::fill(held.begin(), held.end(), 0);
			hist += "ro ";
			break;
		}
		case 2: case 3: {
			uint64_t at = r.below(140), len = 1 + r.below(159 - at);
			f.unlock(at, len);
			if (!f.ok()) c.fail("unlock", "unlock of %llu+%llu failed", (unsigned long long)at, (unsigned long long)len);
			std::fill(held.begin() + static_cast<long>(at), held.begin() + static_cast<long>(at + len), 0);
			hist += fmt("u%llu+%llu ", (unsigned long long)at, (unsigned long long)len);
			break;
		}
		default: {
			uint64_t at = r.below(140), len = 1 + r.below(159 - at);
			f.lock(at, len);
			if (!f.ok()) c.fail("lock", "lock of %llu+%llu failed", (unsigned long long)at, (unsigned long long)len);
			std::fill(held.begin() + static_cast<long>(at), held.begin() + static_cast<long>(at + len), 1);
			hist += fmt("l%llu+%llu ", (unsigned long long)at, (unsigned long long)len);
		}
		}
		if (f.tell() != pos) c.fail("lock-moved", "lock or unlock moved the position to %llu (%s)", (unsigned long long)f.tell(), hist.c_str());
	}
	int pp[2];
	if (pipe(pp)) return;
	pid_t p = fork();
	if (!p) {
		int fd = open(path.c_str(), O_RDWR);
		char seen[160];
		for (int o = 0; o < 160; o++) {
			lseek(fd, o, SEEK_SET);
			seen[o] = lockf(fd, F_TEST, 1) ? 1 : 0;
		}
		_exit(write(pp[1], seen, sizeof(seen)) == sizeof(seen) ? 0 : 1);
	}
	::close(pp[1]);
	char seen[160] = {};
	ssize_t n = read(pp[0], seen, sizeof(seen));
	::close(pp[0]);
	int st = 0;
	waitpid(p, &st, 0);
	if (n == sizeof(seen))
		for (int o = 0; o < 160; o++)
			if (seen[o] != held[static_cast<size_t>(o)]) {
				c.fail("lock-range", "byte %d is %slocked after %s", o, seen[o] ? "" : "not ", hist.c_str());
				break;
			}
	c.sig(hist);
}

// diag_file: same files in step behave as one of them; a file out of step is noticed.
VH_GROUP(diag, 2000, 30000, 1000)
{
	auto& r = c.rng;
	auto path = scratch().file("d");
	unlink(path.c_str());
	file f(path, sx::mode_for_reading | sx::mode_for_writing | sx::mode_create);
	sx::memory_file mem;
	IdealFile x, m;
	sx::cache ch(x, 1 + static_cast<size_t>(r.below(64)));
	sx::basic_file* list[] = { &f, &mem, &ch };
	sx::diag_file d(list, 3);
	Stepper s{ c, d, m };
	s.tag = "diag:";
	s.throws_on_negative = false;
	unsigned n = 5 + static_cast<unsigned>(r.below(40));
	try {
		for (unsigned i = 0; i < n && !c.failed; i++) {
			auto keep = r; // negative seeks are answered differently by each (exception or state); skip them
			s.step();
			(void)keep;
		}
	}
	catch (const std::exception& e) {
		if (s.trace.find("negative") == s.trace.npos) c.fail("diag:mismatch", "%s; history:%s", e.what(), s.trace.c_str());
		return;
	}
	c.sig(s.sg);
	// Out of step.
	mem.seekbeg(0);
	mem.write_byte(0, 200);
	bool noticed = false;
	try {
		d.seekbeg(0);
		uint8_t b[200];
		d.read(b, 200);
		if (d.size() == 200 && m.d.size() != 200) c.fail("diag:unnoticed", "different sizes not noticed");
	}
	catch (const std::runtime_error&) { noticed = true; }
	if (!noticed) c.fail("diag:unnoticed", "different contents not noticed");
}

// Members that answer differently, at any operation and in any respect, are noticed; the same answers never raise an alarm.
struct Odd : IdealFile
{
	enum { none, result, data, state };
	int bend = none;        // the next answer deviates in this
	mutable bool bent = false;
	mutable unsigned calls = 0;
	void mood() { if (bend == state) { bent = true; m_state = m_state == state_t::ok ? state_t::fail : state_t::ok; } }
	size_t read(void* p, size_t n) override
	{
		calls++;
		size_t k = IdealFile::read(p, n);
		if (bend == result && k) { k--; bent = true; }
		if (bend == data && k) { static_cast<uint8_t*>(p)[k - 1] ^= 0x10; bent = true; }
		mood();
		return k;
	}
	size_t write(const void* p, size_t n) override
	{
		calls++;
		size_t k = IdealFile::write(p, n);
		if (bend == result && k) { k--; bent = true; }
		mood();
		return k;
	}
	void flush() override { calls++; IdealFile::flush(); mood(); }
	void close() override { calls++; d.clear(); pos = 0; m_state = state_t::ok; mood(); }
	sx::fpos_t seek(sx::foff_t o, sx::seek_t how) override
	{
		calls++;
		auto k = IdealFile::seek(o, how);
		if (bend == result) { k ^= 1; bent = true; }
		mood();
		return k;
	}
	sx::fpos_t tell() const override { calls++; if (bend == result) { bent = true; return pos + 1; } return pos; }
	sx::fsize_t size() const override { calls++; if (bend == result) { bent = true; return d.size() + 1; } return d.size(); }
	void truncate() override { calls++; IdealFile::truncate(); mood(); }
	void lock(sx::fpos_t, sx::fsize_t) override { calls++; m_state = state_t::ok; mood(); }
	void unlock(sx::fpos_t, sx::fsize_t) override { calls++; m_state = state_t::ok; mood(); }
};
VH_GROUP(diag_odd, 20000, 200000, 5000)
{
	auto& r = c.rng;
	size_t n = static_cast<size_t>(r.below(5));
	std::vector<Odd> m(n);
	std::vector<sx::basic_file*> list;
	for (auto& x : m) list.push_back(&x);
	sx::diag_file d(list.data(), n);
	IdealFile model;
	uint64_t sg = n;
	unsigned ops = 1 + static_cast<unsigned>(r.below(20)), at = r.coin() ? static_cast<unsigned>(r.below(ops)) : UINT_MAX;
	std::string trace;
	for (unsigned i = 0; i < ops && !c.failed; i++) {
		size_t odd = n ? static_cast<size_t>(r.below(n)) : 0;
		unsigned op = static_cast<unsigned>(r.below(11));
		int bend = i == at && n ? 1 + static_cast<int>(r.below(3)) : 0;
		for (auto& x : m) { x.bend = Odd::none; x.bent = false; x.calls = 0; }
		if (bend) m[odd].bend = bend;
		trace += fmt(" %u%s", op, bend ? fmt("(%d by %zu)", bend, odd).c_str() : "");
		sg = mix(sg ^ (op * 16 + static_cast<unsigned>(bend)));
		bool threw = false, differs = false, has_state = true;
		try {
			switch (op) {
			case 0: case 1: {
				size_t len = static_cast<size_t>(r.below(40));
				std::vector<uint8_t> a(len + 1), b(len + 1);
				size_t k = d.read(a.data(), len), w = n ? model.read(b.data(), len) : 0;
				differs = k != w || memcmp(a.data(), b.data(), w);
				break;
			}
			case 2: case 3: {
				auto v = data_bytes(r, 1 + static_cast<size_t>(r.below(40)));
				size_t k = d.write(v.data(), v.size()), w = n ? model.write(v.data(), v.size()) : 0;
				differs = k != w;
				break;
			}
			case 4: d.flush(); model.flush(); break;
			case 5: { auto o = static_cast<sx::foff_t>(r.below(60)); auto k = d.seek(o, sx::seek_t::beg); auto w = n ? model.seek(o) : sx::fpos_max; differs = k != w; break; }
			case 6: { auto k = d.tell(); differs = k != (n ? model.tell() : sx::fpos_max); has_state = false; break; }
			case 7: { auto k = d.size(); differs = k != (n ? model.size() : sx::fsize_max); has_state = false; break; }
			case 8: d.truncate(); model.truncate(); break;
			case 9: if (r.coin()) d.lock(1, 2); else d.unlock(1, 2); model.flush(); break;
			default: d.close(); model.d.clear(); model.pos = 0; model.flush(); break;
			}
		}
		catch (const std::runtime_error&) { threw = true; }
		bool bent = n && m[odd].bent;
		if (n == 0) {
			// Nothing to compare: nothing works, but closing and flushing nothing does.
			VH_CHECK(c, !threw && !differs, "diag:none", "no files: %s in%s", threw ? "exception" : "wrong answer", trace.c_str());
			if (has_state) VH_CHECK(c, d.ok() == (op == 4 || op == 10), "diag:none", "no files: state %s in%s", sname(d.state()), trace.c_str());
		}
		else if (bent) {
			VH_CHECK(c, threw == (n > 1), "diag:odd", "%zu files, %zu deviates: %s; history:%s", n, odd, threw ? "noticed" : "not noticed", trace.c_str());
			c.count("deviations");
			break;
		}
		else {
			VH_CHECK(c, !threw && !differs, "diag:even", "%zu files in step: %s; history:%s", n, threw ? "exception" : "wrong answer", trace.c_str());
			if (has_state) VH_CHECK(c, d.state() == model.state(), "diag:state", "state %s, want %s; history:%s", sname(d.state()), sname(model.state()), trace.c_str());
			for (auto& x : m) VH_CHECK(c, x.calls == 1, "diag:calls", "%u calls of a member; history:%s", x.calls, trace.c_str());
		}
	}
	c.sig(sg);
}

VH_MAIN
