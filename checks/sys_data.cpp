// Buffers, JSON documents and strings.
// modules: sys
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>

// ------------------------------------------------------------------------------------------------- buffers
namespace {
typedef std::string Bytes;

std::string quote(const Bytes& b) {
	std::string r = "\"";
	for (unsigned char c : b) {
		if (c >= 32 && c < 127) r += (char)c; else r += pbt::strf("\\x%02x", c);
		if (r.size() > 300) { r += "..."; break; }
	}
	return r + "\"";
}

int lowest_free_fd() {
	if (!g_alone) return -1;
	int fd = open("/dev/null", O_RDONLY);
	close(fd);
	return fd;
}

Bytes slurp(const std::string& path) {
	Bytes r;
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) return "<no file>";
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0) r.append(buf, n);
	fclose(f);
	return r;
}

void spew(const std::string& path, const Bytes& b) {
	FILE* f = fopen(path.c_str(), "wb");
	if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) pbt::fail("cannot write %s", path.c_str());
	fclose(f);
}

Bytes gen_bytes(pbt::Src& s, bool text) {
	Bytes r;
	int n = (int)s.size(0, s.chance(1, 30) ? 3000 : 20);
	for (int i = 0; i < n; ++i)
		r += text ? s.pick<char>({'a', ' ', '\n', '0', '7', '.', '-', 'Z', '\t', '\r', '\xc3'}) : (char)s.draw(256);
	return r;
}

template <class T> Bytes raw(T v) { return Bytes((const char*)&v, sizeof(v)); }

int64_t gen_int(pbt::Src& s, int bits, bool sign) {
	uint64_t v;
	switch (s.draw(4)) {
	case 0: v = s.draw(100); break;
	case 1: v = -(int64_t)s.draw(100); break;
	case 2: v = s.any(); break;
	default: v = (1ull << s.draw(64)) - s.draw(2);
	}
	if (bits < 64) v &= (1ull << bits) - 1;
	if (sign && bits < 64 && (v >> (bits - 1) & 1)) v |= ~((1ull << bits) - 1);
	return (int64_t)v;
}

double gen_real(pbt::Src& s) {
	switch (s.draw(5)) {
	case 0: return s.real(-10, 10, 4);
	case 1: return s.real(-1, 1, 1000003);
	case 2: return s.real(-100000, 100000, 7);
	case 3: return ldexp(s.real(-1, 1, 1000003), (int)s.range(-30, 40));
	default: return 0;
	}
}

// Writes one random value through w and gives what its bytes or its text are
Bytes write_value(pbt::Src& s, sys_buffer_writer* w, bool text, std::string& what) {
	switch (s.draw(13)) {
	case 0: { b8 v = b8(s.coin()); w->write(v); what = "b8"; return text ? (v ? "true" : "false") : raw(v); }
	case 1: { u8 v = (u8)gen_int(s, 8, false); w->write(v); what = "u8"; return text ? pbt::strf("%u", v) : raw(v); }
	case 2: { i8 v = text ? (i8)s.range(33, 120) : (i8)gen_int(s, 8, true); w->write(v); what = "i8"; return text ? Bytes(1, v) : raw(v); }
	case 3: { u16 v = (u16)gen_int(s, 16, false); w->write(v); what = "u16"; return text ? pbt::strf("%u", v) : raw(v); }
	case 4: { i16 v = (i16)gen_int(s, 16, true); w->write(v); what = "i16"; return text ? pbt::strf("%d", v) : raw(v); }
	case 5: { u32 v = (u32)gen_int(s, 32, false); w->write(v); what = "u32"; return text ? pbt::strf("%u", v) : raw(v); }
	case 6: { i32 v = (i32)gen_int(s, 32, true); w->write(v); what = "i32"; return text ? pbt::strf("%d", v) : raw(v); }
	case 7: { u64 v = (u64)gen_int(s, 64, false); w->write(v); what = "u64"; return text ? pbt::strf("%llu", (unsigned long long)v) : raw(v); }
	case 8: { i64 v = gen_int(s, 64, true); w->write(v); what = "i64"; return text ? pbt::strf("%lld", (long long)v) : raw(v); }
	case 9: { f32 v = (f32)gen_real(s); w->write(v); what = "f32"; return text ? pbt::strf("%.7f", v) : raw(v); }
	case 10: { f64 v = gen_real(s); w->write(v); what = "f64"; return text ? pbt::strf("%.16f", v) : raw(v); }
	default: { Bytes v = gen_bytes(s, text); w->write(v); what = "string " + quote(v); return v; }
	}
}

void model_write(Bytes& m, size_t& pos, const Bytes& b) {
	if (b.empty()) return;
	if (m.size() < pos + b.size()) m.resize(pos + b.size(), 0);
	m.replace(pos, b.size(), b);
	pos += b.size();
}

// Reads one typed value and compares it with the model's bytes
template <class T, class F> bool read_one(const Bytes& m, size_t pos, F f, std::string& why) {
	T got = f(), want;
	memcpy(&want, m.data() + pos, sizeof(T));
	if (memcmp(&got, &want, sizeof(T))) {
		why = "other bytes than written";
		return false;
	}
	return true;
}

// A file that fails as planned: its calls are counted and some of them refused
struct Faulty {
	Bytes data;
	size_t pos = 0;
	int64_t fail_at = -1;	// the call from which on it fails
	int64_t fail_number = 1;	// how many calls in a row fail
	int kinds = 7;	// 1: reading, 2: writing, 4: moving
	int64_t calls = 0, faults = 0, lost = 0;
	int short_reads = 0;
	FILE* file = NULL;

	bool fails(int kind) {
		if (!(kinds & kind)) return false;
		int64_t k = calls++;
		if (fail_at < 0 || k < fail_at || k >= fail_at + fail_number) return false;
		++faults;
		errno = kind == 2 ? ENOSPC : EIO;
		return true;
	}
	static ssize_t read(void* c, char* b, size_t n) {
		Faulty* f = (Faulty*)c;
		if (f->fails(1)) return -1;
		if (f->short_reads && n > (size_t)f->short_reads) n = f->short_reads;
		n = f->pos < f->data.size() ? std::min(n, f->data.size() - f->pos) : 0;
		memcpy(b, f->data.data() + f->pos, n);
		f->pos += n;
		return n;
	}
	static ssize_t write(void* c, const char* b, size_t n) {
		Faulty* f = (Faulty*)c;
		if (f->fails(2)) { f->lost += n; return 0; }
		if (f->data.size() < f->pos + n) f->data.resize(f->pos + n, 0);
		f->data.replace(f->pos, n, Bytes(b, n));
		f->pos += n;
		return n;
	}
	static int seek(void* c, off64_t* o, int w) {
		Faulty* f = (Faulty*)c;
		if (f->fails(4)) return -1;
		off64_t p = *o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)f->pos : (off64_t)f->data.size());
		if (p < 0) { errno = EINVAL; return -1; }
		f->pos = p;
		*o = p;
		return 0;
	}
	static int shut(void* c) { ((Faulty*)c)->file = NULL; return 0; }
	void open(const char* mode, bool buffered) {
		cookie_io_functions_t io;
		io.read = read; io.write = write; io.seek = seek; io.close = shut;
		file = fopencookie(this, mode, io);
		CHECK_THAT(file != NULL, "cannot make a file");
		if (!buffered) setvbuf(file, NULL, _IONBF, 0);
	}
};

// Whatever call of a file fails, the status says so at once (a write that waits in the memory of the FILE: when it is closed), and never otherwise
void faults_case(pbt::Src& s) {
	bool text = s.coin(), write = s.coin(), buffered = s.chance(1, 3);
	Faulty f;
	std::string log = pbt::strf("%s %s %s: ", buffered ? "buffered" : "unbuffered", text ? "text" : "binary", write ? "writer" : "reader");
	f.kinds = s.pick<int>({1, 2, 4, 7, 7});
	if (!s.chance(1, 5)) f.fail_at = s.range(0, write ? 10 : 30);
	f.fail_number = s.chance(1, 3) ? 1 : 1000000000;
	if (!write) f.data = gen_bytes(s, text);
	if (s.coin()) f.short_reads = (int)s.range(1, 4);
	log += pbt::strf("%d calls of kinds %d fail from the %dth on; ", (int)std::min<int64_t>(f.fail_number, 9999), f.kinds, (int)f.fail_at);
	int n = (int)s.size(1, 10);
	auto truth = [&](sys_IO_Status st, const char* when) {
		CHECK_THAT((st != sys_IO_Status_OK) == (f.faults > 0), "%sthe status is %d %s%s after %d failed calls of the file", log.c_str(), (int)st, when, "", (int)f.faults);
	};
	if (write) {
		f.open("wb", buffered);
		bool owned = s.coin();
		std::unique_ptr<sys_buffer_writer> w;
		if (text) w.reset(new sys_string_file_buffer_writer(f.file, owned)); else w.reset(new sys_byte_file_buffer_writer(f.file, owned));
		Bytes model;
		size_t pos = 0;
		for (int k = 0; k < n; ++k) {	// one that failed once is not forgotten, whatever is written after it
			int what = s.weighted({6, 2, 2});
			if (what == 0) {
				std::string t;
				Bytes b = write_value(s, w.get(), text, t);
				log += t + "; ";
				if (!f.faults) model_write(model, pos, b);
			} else if (what == 1) {
				size_t p = (size_t)s.range(0, model.size());
				w->seek((i64)p, sys_File_Seek_Set);
				log += pbt::strf("seek to %zu; ", p);
				pos = p;
			} else {
				i64 p = w->position();
				log += "position; ";
				if (!f.faults) CHECK_THAT(p == (i64)pos, "%sposition() is %lld instead of %zu", log.c_str(), (long long)p, pos);
			}
			truth(w->get_status(), "right");
		}
		bool early = f.faults > 0;
		FILE* file = f.file;
		w->close();
		if (owned) {
			log += "close; ";
			CHECK_THAT(f.file == NULL, "%sthe file stays open", log.c_str());
			truth(w->get_status(), "when it is closed");
		} else {
			CHECK_THAT(f.file == file, "%sa file of someone else is closed", log.c_str());
			fclose(file);
		}
		if (!f.faults) CHECK_THAT(f.data == model, "%sthe content is %s instead of %s", log.c_str(), quote(f.data).c_str(), quote(model).c_str());
		s.label(f.faults == 0 ? "file without a failure" : early ? "failure of a writer's file" : owned ? "failure while a file is closed" : "failure while its owner closes it");
		s.nontrivial(f.faults > 0 && n > 1);
	} else {
		f.open("rb", buffered);
		bool owned = s.coin();
		std::unique_ptr<sys_buffer_reader> r;
		if (text) r.reset(new sys_string_file_buffer_reader(f.file, owned)); else r.reset(new sys_byte_file_buffer_reader(f.file, owned));
		sys_byte_buffer_reader* br = r->to_byte_buffer_reader();
		sys_string_buffer_reader* sr = r->to_string_buffer_reader();
		size_t pos = 0;
		for (int k = 0; k < n && r->get_status() == sys_IO_Status_OK; ++k) {
			size_t left = f.data.size() - pos;
			int what = (int)s.draw(7);
			Bytes want, got;
			bool cmp = true;
			if (what == 0) {
				pos = (size_t)s.range(0, f.data.size());
				r->seek((i64)pos, sys_File_Seek_Set);
				log += pbt::strf("seek to %zu; ", pos);
			} else if (what == 1) {
				log += "size; ";
				want = pbt::strf("%zu", f.data.size()), got = pbt::strf("%lld", (long long)r->size());
			} else if (what == 2) {
				log += "position and is_eof; ";
				want = pbt::strf("%zu %d", pos, (int)!left);
				long long p = r->position();
				got = pbt::strf("%lld %d", p, (bool)r->is_eof() ? 1 : 0);
			} else if (what <= 4 || !left) {
				size_t len = (size_t)s.range(0, left);
				log += pbt::strf("read_str %zu; ", len);
				std::string t;
				if (s.coin()) r->read_str(t, (i32)len); else t = r->read_str((i32)len);
				got = t, want = f.data.substr(pos, len);
				pos += len;
			} else if (text && what == 5) {
				log += "read_line; ";
				std::string t;
				sr->read_line(t);
				size_t e = f.data.find('\n', pos);
				want = f.data.substr(pos, e == Bytes::npos ? e : e - pos), got = t;
				pos += want.size() + (e != Bytes::npos);
			} else if (text) {
				log += "read_char; ";
				got = Bytes(1, sr->read_char()), want = f.data.substr(pos, 1);
				++pos;
			} else {
				log += "read_u8; ";
				got = Bytes(1, (char)br->read_u8()), want = f.data.substr(pos, 1);
				++pos;
			}
			// the C library may keep a failure of reading ahead for itself; what is given without an error is right, though
			if (!f.faults) truth(r->get_status(), "right");
			if (r->get_status() == sys_IO_Status_OK) CHECK_THAT(got == want, "%sthat gives %s instead of %s", log.c_str(), quote(got).c_str(), quote(want).c_str());
		}
		FILE* file = f.file;
		r->close();
		if (owned) CHECK_THAT(f.file == NULL, "%sthe file stays open", log.c_str());
		else { CHECK_THAT(f.file == file, "%sa file of someone else is closed", log.c_str()); fclose(file); }
		s.label(f.faults ? "failure of a reader's file" : "file without a failure");
		s.nontrivial(f.faults > 0 && n > 1);
	}
	if (s.want_note()) s.note(log);
}
}

PROPERTY(C18, 400000, 3200000, "at least three writes and one seek, or a read history of at least three operations that does not start at 0, or a history of two or more operations in which a call of the file fails",
	"text writers are only moved to positions they have written, seeking from the end counts back in memory and forward (as fseek does) in files\n"
	"the text of a number is printf's with the 7 (f32) or 16 (f64) decimals sys_strcombine is tested for\n"
	"reading stops at the first error; the C library may keep a failure of reading ahead to itself as long as what is given is right") {
	quiet();
	pbt::Src& s = src;
	if (s.chance(1, 6)) { faults_case(s); return; }
	int fd0 = lowest_free_fd();
	bool text = s.coin(), file = s.coin();
	std::string path = pbt::scratch_dir() + "/buffer";
	std::string log = pbt::strf("%s %s: ", text ? "text" : "binary", file ? "file" : "memory");
	std::vector<u8> bytes;
	std::string str;
	Bytes model;
	size_t pos = 0;
	int writes = 0, seeks = 0;
	if (file && s.chance(1, 4)) spew(path, "an older and longer file that is replaced, whatever is written now"); else unlink(path.c_str());
	if (!file && s.chance(1, 4)) {	// memory that already holds something is written over from its start
		model = gen_bytes(s, text);
		bytes.assign(model.begin(), model.end());
		str = model;
	}

	int sessions = file && s.chance(1, 3) ? 2 : 1;
	for (int session = 0; session < sessions; ++session) {
		std::unique_ptr<sys_buffer_writer> w;
		bool append = session > 0;
		FILE* own = NULL;
		if (file) {
			bool by_file = s.chance(1, 3);
			if (by_file) {
				own = fopen(path.c_str(), append ? "rb+" : "wb");
				CHECK_THAT(own != NULL, "cannot open %s", path.c_str());
				if (append) fseek(own, 0, SEEK_END);
			}
			if (text) w.reset(by_file ? new sys_string_file_buffer_writer(own, sys_false) : new sys_string_file_buffer_writer(path, append));
			else w.reset(by_file ? new sys_byte_file_buffer_writer(own, sys_false) : new sys_byte_file_buffer_writer(path, append));
			if (append) { pos = model.size(); log += by_file ? "go on; " : "append; "; }
			else { model.clear(); pos = 0; }
		} else if (text) w.reset(new sys_string_buffer_writer(&str));
		else w.reset(new sys_byte_buffer_writer(&bytes));
		bool may_seek = !(append && !own);	// appending always writes at the end
		CHECK_THAT(w->is_string_buffer() == b8(text), "is_string_buffer is wrong");
		CHECK_THAT(!w->is_closed(), "%sis_closed at once", log.c_str());

		// nothing written behind the end: whether the content grows up to there is left open
		auto forget_gap = [&] {
			if (!file) model.assign(bytes.begin(), bytes.end());
			w->seek(0, sys_File_Seek_End);
			pos = model.size();
		};

		int n = (int)s.size(0, 12);
		for (int k = 0; k < n; ++k) {
			int what = s.weighted({6, 2, 1, 1, 1});
			if (!may_seek && what > 1) what = 0;
			if (what == 0) {
				std::string t;
				Bytes b = write_value(s, w.get(), text, t);
				log += t + "; ";
				if (b.empty() && pos > model.size()) forget_gap();
				model_write(model, pos, b);
				++writes;
			} else if (what == 1) {
				if (text) {
					Bytes b = gen_bytes(s, true);
					w->write(b.c_str());
					log += "chars " + quote(b) + "; ";
					model_write(model, pos, b);
				} else {
					Bytes b = gen_bytes(s, false);
					sys_byte_buffer_writer* bw = (sys_byte_buffer_writer*)w.get();
					bool vec = s.coin();
					if (vec && !b.empty()) bw->write(std::vector<u8>(b.begin(), b.end()));
					else bw->write((const u8*)b.data(), (const u8*)b.data() + b.size());
					log += (vec ? "vector " : "range ") + quote(b) + "; ";
					if (b.empty() && pos > model.size()) forget_gap();
					model_write(model, pos, b);
				}
				++writes;
			} else if (what == 2) {
				pos = (size_t)s.range(0, model.size() + (text ? 0 : s.draw(5)));
				w->seek((i64)pos, sys_File_Seek_Set);
				log += pbt::strf("seek to %zu; ", pos);
				++seeks;
			} else if (what == 3) {
				int64_t by = s.range(-(int64_t)pos, pos < model.size() ? (int64_t)(model.size() - pos) : 0);
				pos += by;
				w->seek(by, sys_File_Seek_Cur);
				log += pbt::strf("seek by %lld; ", (long long)by);
				++seeks;
			} else {
				int64_t back = s.coin() ? s.range(0, model.size()) : 0;
				pos = model.size() - back;
				w->seek(file ? -back : back, sys_File_Seek_End);
				log += pbt::strf("seek to %lld before the end; ", (long long)back);
				++seeks;
			}
			if (may_seek) CHECK_THAT(w->position() == (i64)pos, "%sposition() is %lld instead of %zu", log.c_str(), (long long)w->position(), pos);
			CHECK_THAT(w->get_status() == sys_IO_Status_OK, "%sthe status is an error", log.c_str());
		}
		if (s.coin()) { w->close(); if (file) CHECK_THAT(w->is_closed(), "%sis_closed is false after close", log.c_str()); }
		w.reset();
		if (own) { fputc('!', own); fclose(own); model += Bytes(); if (pos < model.size()) model[pos] = '!'; else { while (model.size() < pos) model += '\0'; model += '!'; } log += "! by its owner; "; }
	}
	Bytes got = file ? slurp(path) : text ? str : Bytes(bytes.begin(), bytes.end());
	CHECK_THAT(got == model, "%sthe content is %s instead of %s", log.c_str(), quote(got).c_str(), quote(model).c_str());
	int fd1 = lowest_free_fd();
	CHECK_THAT(fd1 == fd0, "%sa file stays open after its writer is gone", log.c_str());

	// reading it back
	std::string rlog;
	bool from_middle = false;
	int reads = 0;
	{
		std::unique_ptr<sys_buffer_reader> r;
		FILE* own = NULL;
		if (file) {
			bool by_file = s.chance(1, 3);
			if (by_file) own = fopen(path.c_str(), "rb");
			if (text) r.reset(own ? new sys_string_file_buffer_reader(own, sys_false) : new sys_string_file_buffer_reader(path));
			else r.reset(own ? new sys_byte_file_buffer_reader(own, sys_false) : new sys_byte_file_buffer_reader(path));
		} else if (text) r.reset(new sys_string_buffer_reader(str));
		else r.reset(new sys_byte_buffer_reader(bytes.data(), bytes.data() + bytes.size()));
		sys_byte_buffer_reader* br = r->to_byte_buffer_reader();
		sys_string_buffer_reader* sr = r->to_string_buffer_reader();
		CHECK_THAT((br != NULL) == !text && (sr != NULL) == text && r->is_string_buffer() == b8(text), "to_byte_buffer_reader or to_string_buffer_reader is wrong");
		{
			const sys_buffer_reader* c = r.get();
			CHECK_THAT((c->to_byte_buffer_reader() != NULL) == !text, "to_byte_buffer_reader of a constant reader is wrong");
			CHECK_THAT((c->to_string_buffer_reader() != NULL) == text, "to_string_buffer_reader of a constant reader is wrong");
		}
		size_t rp = 0;
		int n = (int)s.size(0, 14);
		for (int k = 0; k < n; ++k) {
			std::string why;
			bool ok = true, eof = false;
			size_t left = model.size() - rp;
			if (rp) from_middle = true;
			++reads;
			int what = s.weighted({3, 3, 2, 1, 1, 4});
			if (what == 0) {	// seek
				int how = (int)s.draw(3);
				if (how == 0) { rp = (size_t)s.range(0, model.size()); r->seek((i64)rp, sys_File_Seek_Set); }
				else if (how == 1) { int64_t by = s.range(-(int64_t)rp, (int64_t)left); rp += by; r->seek(by, sys_File_Seek_Cur); }
				else { int64_t back = s.coin() ? s.range(0, model.size()) : 0; rp = model.size() - back; r->seek(file ? -back : back, sys_File_Seek_End); }
				rlog += pbt::strf("seek to %zu; ", rp);
			} else if (what == 1) {	// a string
				int64_t len = s.range(0, left + (s.chance(1, 12) ? 3 : 0));
				rlog += pbt::strf("read_str %lld; ", (long long)len);
				std::string t = "untouched";
				bool by_ref = s.coin();
				if (by_ref) r->read_str(t, (i32)len); else t = r->read_str((i32)len);
				if (len > (int64_t)left) eof = true;
				else {
					ok = t == model.substr(rp, len);
					why = "read_str gives " + quote(t) + " instead of " + quote(model.substr(rp, len));
					rp += len;
				}
			} else if (what == 2 && !text) {
				int64_t len = s.range(1, std::max<int64_t>(1, left + (s.chance(1, 12) ? 3 : 0)));
				rlog += pbt::strf("read %lld; ", (long long)len);
				std::vector<u8> t;
				if (s.coin()) br->read(t, (i32)len);
				else { t.resize(len); br->read(t.data(), (i32)len); }
				if (len > (int64_t)left) eof = true;
				else { ok = Bytes(t.begin(), t.end()) == model.substr(rp, len); why = "read gives other bytes"; rp += len; }
			} else if (what == 2 || what == 3) {
				if (text) {
					if (what == 2) {
						std::string want;
						size_t e = model.find('\n', rp);
						bool nl = e != Bytes::npos;
						want = model.substr(rp, nl ? e - rp : Bytes::npos);
						rlog += "read_line; ";
						std::string t;
						if (s.coin()) t = sr->read_line(); else sr->read_line(t);
						if (!left) eof = true;
						else { ok = t == want; why = "read_line gives " + quote(t) + " instead of " + quote(want); rp += want.size() + nl; }
					} else {
						rlog += "read_char; ";
						char c = sr->read_char();
						if (!left) eof = true;
						else { ok = c == model[rp]; why = "read_char gives " + quote(Bytes(1, c)) + " instead of " + quote(model.substr(rp, 1)); ++rp; }
					}
				} else { --reads; continue; }
			} else if (text) {	// a number of the next characters
				int64_t len = s.range(1, std::max<int64_t>(1, std::min<int64_t>(12, left)));
				rlog += pbt::strf("read %lld as a number; ", (long long)len);
				double v = sr->read((i32)len);
				if (len > (int64_t)left) eof = true;
				else { ok = v == atof(model.substr(rp, len).c_str()); why = "read gives another number"; rp += len; }
			} else {
				int t = (int)s.draw(11);
				static const int sz[] = {(int)sizeof(b8), 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
				rlog += pbt::strf("read value of type %d; ", t);
				if (t == 0 && left && (unsigned char)model[rp] > 1) { --reads; continue; }
				if (sz[t] > (int)left) {
					if (left && !s.chance(1, 6)) { --reads; continue; }
					eof = true;
					if (t < 3) br->read_u8(); else if (t < 5) br->read_i16(); else if (sz[t] == 4) br->read_i32(); else br->read_u64();
				} else {
					switch (t) {
					case 0: ok = read_one<b8>(model, rp, [&] { return br->read_b8(); }, why); break;
					case 1: ok = read_one<i8>(model, rp, [&] { return br->read_c8(); }, why); break;
					case 2: ok = read_one<u8>(model, rp, [&] { return br->read_u8(); }, why); break;
					case 3: ok = read_one<u16>(model, rp, [&] { return br->read_u16(); }, why); break;
					case 4: ok = read_one<i16>(model, rp, [&] { return br->read_i16(); }, why); break;
					case 5: ok = read_one<u32>(model, rp, [&] { return br->read_u32(); }, why); break;
					case 6: ok = read_one<i32>(model, rp, [&] { return br->read_i32(); }, why); break;
					case 7: ok = read_one<u64>(model, rp, [&] { return br->read_u64(); }, why); break;
					case 8: ok = read_one<i64>(model, rp, [&] { return br->read_i64(); }, why); break;
					case 9: ok = read_one<f32>(model, rp, [&] { return br->read_f32(); }, why); break;
					default: ok = read_one<f64>(model, rp, [&] { return br->read_f64(); }, why);
					}
					rp += sz[t];
				}
			}
			CHECK_THAT(ok, "%sthen %s%s", log.c_str(), rlog.c_str(), why.c_str());
			CHECK_THAT(r->get_status() == (eof ? sys_IO_Status_Error_Eof : sys_IO_Status_OK), "%sthen %sthe status is %d", log.c_str(), rlog.c_str(), r->get_status());
			CHECK_THAT(r->size() == (i64)model.size(), "%sthen %ssize() is %lld instead of %zu", log.c_str(), rlog.c_str(), (long long)r->size(), model.size());
			CHECK_THAT(r->position() == (i64)rp, "%sthen %sposition() is %lld instead of %zu", log.c_str(), rlog.c_str(), (long long)r->position(), rp);
			CHECK_THAT(r->remain_size() == (i64)(model.size() - rp) && r->is_eof() == (rp == model.size()), "%sthen %sremain_size or is_eof is wrong", log.c_str(), rlog.c_str());
			if (eof) { s.label("read past the end"); break; }
		}
		if (s.chance(1, 4)) { r->close(); if (file) CHECK_THAT(r->is_closed(), "%sis_closed is false after close", rlog.c_str()); }
		r.reset();
		if (own) { CHECK_THAT(fseek(own, 0, SEEK_SET) == 0, "the reader closed a file it does not own"); fclose(own); }
	}
	CHECK_THAT(lowest_free_fd() == fd0, "%sthen %sa file stays open after its reader is gone", log.c_str(), rlog.c_str());

	if (s.chance(1, 20)) {	// a file that cannot be opened
		std::string no = pbt::scratch_dir() + "/missing/file";
		if (s.coin()) {
			sys_byte_file_buffer_reader a(no);
			sys_string_file_buffer_reader b(no);
			CHECK_THAT(a.get_status() != sys_IO_Status_OK && a.is_closed() && ((sys_buffer_reader&)b).get_status() != sys_IO_Status_OK && b.is_closed(), "a file that does not exist is open");
		} else {
			sys_byte_file_buffer_writer a(no);
			sys_string_file_buffer_writer b(no);
			CHECK_THAT(((sys_buffer_writer&)a).get_status() != sys_IO_Status_OK && a.is_closed() && ((sys_buffer_writer&)b).get_status() != sys_IO_Status_OK && b.is_closed(), "a file that cannot be created is open");
		}
		s.label("file that cannot be opened");
	}
	if (file) unlink(path.c_str());
	s.label(text ? "text" : "binary");
	s.label(file ? "file" : "memory");
	s.nontrivial((writes >= 3 && seeks >= 1) || (reads >= 3 && from_middle));
	if (s.want_note()) s.note(log + "then " + rlog);
}

// ------------------------------------------------------------------------------------------------- documents
namespace {
enum Kind { K_TEXT, K_B8, K_U8, K_I8, K_U16, K_I16, K_U32, K_I32, K_U64, K_I64, K_F32, K_F64, K_MAP, K_SEQ };
const char* kind_names[] = {"text", "b8", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "map", "seq"};
struct Doc {
	int kind = K_TEXT;
	std::string text, name;
	int64_t i = 0;
	double f = 0;
	std::vector<Doc> items;
};

std::string gen_word(pbt::Src& s, bool name) {
	std::string r;
	int n = (int)s.size(name ? 1 : 0, 8);
	for (int k = 0; k < n; ++k) {
		char c = s.pick<char>({'a', 'b', 'Z', '0', ' ', '.', '-', '"', ',', '\\', '\xe4', '\xff', '=', ':', '\r', '1'});
		if (name && c == ':') c = '_';
		r += c;
	}
	return r;
}

Doc gen_leaf(pbt::Src& s, int kind) {
	Doc d;
	d.kind = kind;
	switch (kind) {
	case K_TEXT: d.text = gen_word(s, false); break;
	case K_B8: d.i = s.draw(2); break;
	case K_U8: d.i = gen_int(s, 8, false); break;
	case K_I8: d.i = gen_int(s, 8, true); break;
	case K_U16: d.i = gen_int(s, 16, false); break;
	case K_I16: d.i = gen_int(s, 16, true); break;
	case K_U32: d.i = gen_int(s, 32, false); break;
	case K_I32: d.i = gen_int(s, 32, true); break;
	case K_U64: case K_I64: d.i = gen_int(s, 64, true); break;
	case K_F32: d.f = (f32)gen_real(s); break;
	case K_F64: d.f = gen_real(s); break;
	}
	return d;
}

Doc gen_doc(pbt::Src& s, int kind, int depth, int& budget);

void gen_items(pbt::Src& s, Doc& d, int depth, int& budget) {
	int n = (int)s.size(0, depth ? 5 : 8);
	auto any_kind = [&] { return depth < 4 && s.chance(2, 5) ? (s.coin() ? (int)K_SEQ : (int)K_MAP) : (int)s.draw(K_MAP); };
	int k = any_kind();
	for (int i = 0; i < n && budget > 0; ++i) {
		if (d.kind == K_MAP) k = any_kind();
		Doc e = gen_doc(s, k, depth + 1, budget);
		if (d.kind == K_MAP) {
			e.name = gen_word(s, true);
			bool dup = false;
			for (auto& x : d.items) dup = dup || x.name == e.name;
			if (dup) continue;
		}
		d.items.push_back(e);
	}
}

Doc gen_doc(pbt::Src& s, int kind, int depth, int& budget) {
	--budget;
	if (kind < K_MAP) return gen_leaf(s, kind);
	Doc d;
	d.kind = kind;
	gen_items(s, d, depth, budget);
	return d;
}

std::string show(const Doc& d) {
	switch (d.kind) {
	case K_TEXT: return quote(d.text);
	case K_F32: case K_F64: return pbt::strf("%s %.17g", kind_names[d.kind], d.f);
	case K_MAP: case K_SEQ: {
		std::string r = d.kind == K_MAP ? "{" : "[";
		for (size_t i = 0; i < d.items.size(); ++i) r += (i ? ", " : "") + (d.kind == K_MAP ? quote(d.items[i].name) + ": " : std::string()) + show(d.items[i]);
		return r + (d.kind == K_MAP ? "}" : "]");
	}
	default: return d.kind == K_U64 ? pbt::strf("u64 %llu", (unsigned long long)d.i) : pbt::strf("%s %lld", kind_names[d.kind], (long long)d.i);
	}
}

template <class T> T as(const Doc& d) { return (T)d.i; }
template <> f32 as<f32>(const Doc& d) { return (f32)d.f; }
template <> f64 as<f64>(const Doc& d) { return d.f; }
template <> std::string as<std::string>(const Doc& d) { return d.text; }
template <> b8 as<b8>(const Doc& d) { return b8(d.i != 0); }

template <class F> void with_type(int kind, F f) {
	switch (kind) {
	case K_TEXT: f(std::string()); break;
	case K_B8: f(b8()); break;
	case K_U8: f(u8()); break;
	case K_I8: f(i8()); break;
	case K_U16: f(u16()); break;
	case K_I16: f(i16()); break;
	case K_U32: f(u32()); break;
	case K_I32: f(i32()); break;
	case K_U64: f(u64()); break;
	case K_I64: f(i64()); break;
	case K_F32: f(f32()); break;
	default: f(f64()); break;
	}
}

bool all_leaves(const Doc& d, int& kind) {
	for (auto& e : d.items) {
		if (e.kind >= K_MAP || (kind >= 0 && e.kind != kind)) return false;
		kind = e.kind;
	}
	return kind >= 0;
}

void write_doc(pbt::Src& s, sys_json_writer& w, const Doc& d) {
	if (d.kind < K_MAP) {
		with_type(d.kind, [&](auto x) {
			typedef decltype(x) T;
			w << as<T>(d);
		});
		return;
	}
	int kind = -1;
	if (all_leaves(d, kind) && s.coin()) {	// in one go
		with_type(kind, [&](auto x) {
			typedef decltype(x) T;
			if (d.kind == K_SEQ) {
				std::vector<T> v;
				for (auto& e : d.items) v.push_back(as<T>(e));
				w << v;
			} else {
				std::map<std::string, T> v;
				for (auto& e : d.items) v[e.name] = as<T>(e);
				w << v;
			}
		});
		return;
	}
	w << (d.kind == K_MAP ? "{" : "[");
	for (auto& e : d.items) {
		if (d.kind == K_MAP) { if (s.coin()) w << e.name; else w << e.name.c_str(); }
		write_doc(s, w, e);
	}
	w << (d.kind == K_MAP ? "}" : "]");
}

// false with a text when got is not what was written
template <class T> bool same_leaf(const T& got, const T& want, bool, std::string& why) {
	if (got == want) return true;
	why = "reads " + std::to_string(got) + " instead of " + std::to_string(want);
	return false;
}
bool same_leaf(const std::string& got, const std::string& want, bool, std::string& why) {
	if (got == want) return true;
	why = "reads " + quote(got) + " instead of " + quote(want);
	return false;
}
bool same_leaf(const b8& got, const b8& want, bool, std::string& why) {
	if ((u8)got == (u8)want) return true;
	why = pbt::strf("reads the b8 %d instead of %d", (u8)got, (u8)want);
	return false;
}
bool same_real(double got, double want, double tol, std::string& why) {
	if (got == want || fabs(got - want) <= tol) return true;
	why = pbt::strf("reads %.17g instead of %.17g", got, want);
	return false;
}
bool same_leaf(const f32& got, const f32& want, bool text, std::string& why) { return same_real(got, want, text ? 0.5000001e-7 + fabs(want) * FLT_EPSILON : 0, why); }
bool same_leaf(const f64& got, const f64& want, bool text, std::string& why) { return same_real(got, want, text ? 0.5000001e-16 + fabs(want) * DBL_EPSILON : 0, why); }

bool read_doc(pbt::Src& s, const sys_json_reader& r, const Doc& d, bool text, std::string where, std::string& why) {
	bool ok = true;
	if (d.kind < K_MAP) {
		if (r.is_map() || r.is_seq()) { why = where + " is not a value"; return false; }
		with_type(d.kind, [&](auto x) {
			typedef decltype(x) T;
			T v = T();
			r >> v;
			ok = same_leaf(v, as<T>(d), text, why);
			if (ok && d.kind == K_B8 && s.coin()) { sys_json_reader c = r; ok = same_leaf(c.to_b8(), as<b8>(d), text, why); }
			if (ok && d.kind == K_I32 && s.coin()) ok = same_leaf(r.to_i32(), as<i32>(d), text, why);
			if (ok && d.kind == K_TEXT && s.coin()) ok = same_leaf(r.to_string(), as<std::string>(d), text, why);
			if (ok && s.chance(1, 8)) {
				std::vector<T> one;
				r >> one;	// a value is also a sequence of one
				ok = one.size() == 1 && same_leaf(one[0], as<T>(d), text, why);
				if (!ok && why.empty()) why = "does not read as a sequence of one value";
			}
		});
		bool is_unsigned = d.kind == K_U8 || d.kind == K_U16 || d.kind == K_U32 || d.kind == K_U64;
		if (ok && d.kind >= K_U8 && d.kind <= K_I64 && (text || !is_unsigned) && s.chance(1, 4)) {	// integers read as others that hold them
			if (d.kind != K_U64 && s.coin()) { i64 v = 0; r >> v; ok = same_leaf<i64>(v, (i64)d.i, text, why); }
			else if (d.kind != K_U64 && d.i > -(1ll << 53) && d.i < (1ll << 53)) { f64 v = 0; r >> v; ok = same_leaf((f64)v, (f64)d.i, text, why); }
		}
		if (!ok) why = where + " " + why;
		return ok;
	}
	if (d.kind == K_MAP ? !r.is_map() : !r.is_seq()) { why = where + " is not a map or sequence"; return false; }
	bool early = s.coin();
	if (early && r.size() != (i32)d.items.size()) { why = where + pbt::strf(" has size() %d instead of %zu", r.size(), d.items.size()); return false; }
	int kind = -1;
	if (all_leaves(d, kind) && s.coin()) {
		with_type(kind, [&](auto x) {
			typedef decltype(x) T;
			if (d.kind == K_SEQ) {
				std::vector<T> v(s.draw(3));	// what it held does not matter
				r >> v;
				if (v.size() != d.items.size()) { ok = false; why = pbt::strf("reads %zu values instead of %zu", v.size(), d.items.size()); }
				for (size_t i = 0; ok && i < v.size(); ++i) ok = same_leaf(v[i], as<T>(d.items[i]), text, why);
			} else {
				std::map<std::string, T> v;
				v["old"] = T();
				r >> v;
				if (v.size() != d.items.size()) { ok = false; why = pbt::strf("reads %zu entries instead of %zu", v.size(), d.items.size()); }
				for (size_t i = 0; ok && i < d.items.size(); ++i) {
					if (!v.count(d.items[i].name)) { ok = false; why = "lacks " + quote(d.items[i].name); break; }
					ok = same_leaf(v[d.items[i].name], as<T>(d.items[i]), text, why);
				}
			}
		});
		if (!ok) { why = where + " " + why; return false; }
	} else if (s.chance(1, 3)) {	// by iterators
		std::vector<const Doc*> want;
		for (auto& e : d.items) want.push_back(&e);
		if (d.kind == K_MAP) std::sort(want.begin(), want.end(), [](const Doc* a, const Doc* b) { return a->name < b->name; });
		size_t i = 0;
		for (sys_json_reader_iteartor it = r.begin(); it != r.end(); ++i) {
			if (i == want.size()) { why = where + " has more elements than written"; return false; }
			sys_json_reader e = *it;
			if (d.kind == K_MAP && e.node_name() != want[i]->name) { why = where + " has the name " + quote(e.node_name()) + " instead of " + quote(want[i]->name); return false; }
			if (!read_doc(s, e, *want[i], text, where + pbt::strf("<%zu>", i), why)) return false;
			if (s.coin()) ++it; else it++;
		}
		if (i != want.size()) { why = where + pbt::strf(" has %zu elements instead of %zu", i, want.size()); return false; }
	} else if (!d.items.empty() && s.chance(1, 4)) {	// an iterator that goes back and forth
		std::vector<const Doc*> want;
		for (auto& e : d.items) want.push_back(&e);
		if (d.kind == K_MAP) std::sort(want.begin(), want.end(), [](const Doc* a, const Doc* b) { return a->name < b->name; });
		int n = (int)want.size(), at = s.coin() ? n : 0;
		sys_json_reader_iteartor it = at ? r.end() : r.begin();
		std::vector<std::pair<sys_json_reader_iteartor, int>> seen;
		std::string moves;
		for (int step = 2 + (int)s.draw(6); step > 0; --step) {
			int to, way = (int)s.draw(d.kind == K_SEQ ? 4 : 2);
			if (way == 0) {
				if (at == n) continue;
				if (s.coin()) { ++it; moves += " ++it"; } else { seen.push_back(std::make_pair(it++, at)); moves += " it++"; }
				to = at + 1;
			} else if (way == 1) {
				if (at == 0) continue;
				if (s.coin()) { --it; moves += " --it"; } else { seen.push_back(std::make_pair(it--, at)); moves += " it--"; }
				to = at - 1;
			} else {
				to = (int)s.draw(n + 1);
				if (way == 2) it += to - at; else it -= at - to;
				moves += pbt::strf(" it %c= %d", way == 2 ? '+' : '-', way == 2 ? to - at : at - to);
			}
			at = to;
			seen.push_back(std::make_pair(it, at));
			if ((bool)(u8)(it == r.begin()) != (at == 0) || (bool)(u8)(it != r.end()) != (at != n)) { why = where + pbt::strf(" of %d elements: after%s the iterator is at %d but compares otherwise with begin and end", n, moves.c_str(), at); return false; }
		}
		for (auto& x : seen) {
			for (auto& y : seen)
				if ((bool)(u8)(x.first == y.first) != (x.second == y.second)) { why = where + pbt::strf(" of %d elements: after%s the iterators at %d and %d compare otherwise", n, moves.c_str(), x.second, y.second); return false; }
			if (x.second < n && (&x == &seen[0] || s.chance(1, 3))) {
				sys_json_reader e = *x.first;
				if (d.kind == K_MAP && e.node_name() != want[x.second]->name) { why = where + " has the name " + quote(e.node_name()) + " instead of " + quote(want[x.second]->name); return false; }
				if (!read_doc(s, e, *want[x.second], text, where + pbt::strf("<%d>", x.second), why)) return false;
			}
		}
	} else {	// one by one, in any order
		size_t first = d.items.empty() ? 0 : s.draw(d.items.size());
		for (size_t k = 0; k < d.items.size(); ++k) {
			size_t i = (first + k) % d.items.size();
			const Doc& e = d.items[i];
			if (d.kind == K_MAP) {
				if (!r.has_key(e.name)) { why = where + " has no key " + quote(e.name); return false; }
				if (!read_doc(s, r[e.name], e, text, where + "[" + quote(e.name) + "]", why)) return false;
			} else {
				if (!read_doc(s, r[(i32)i], e, text, where + pbt::strf("[%zu]", i), why)) return false;
			}
		}
	}
	if (d.kind == K_MAP) {
		std::string other = gen_word(s, true);
		bool has = false;
		for (auto& e : d.items) has = has || e.name == other;
		if ((bool)(u8)r.has_key(other) != has) { why = where + " has_key(" + quote(other) + ") is wrong"; return false; }
	}
	if (r.size() != (i32)d.items.size()) { why = where + pbt::strf(" has size() %d instead of %zu", r.size(), d.items.size()); return false; }
	return true;
}
}

PROPERTY(C19, 500000, 4000000, "a document with at least six nodes and at least one map or sequence inside another",
	"names are not empty and have no tab, line end, brace, bracket or colon, texts none of the first five (the documented limit of the format)\n"
	"the elements of a sequence are of one kind, as in vector<T>\n"
	"binary documents do not record whether an integer is signed: unsigned ones are read into unsigned variables\n"
	"text documents keep the 7 (f32) or 16 (f64) decimals that sys_strcombine writes") {
	quiet();
	pbt::Src& s = src;
	int budget = (int)s.pick({6, 20, 60});
	Doc root;
	root.kind = K_MAP;
	gen_items(s, root, 0, budget);
	bool text = s.coin(), file = s.chance(1, 3);
	std::string path = pbt::scratch_dir() + "/json", str;
	std::vector<u8> bytes;
	std::string what = std::string(text ? "text " : "binary ") + (file ? "file " : "") + show(root);
	if (s.want_note()) s.note(what);
	{
		std::unique_ptr<sys_buffer_writer> w;
		if (text) w.reset(file ? new sys_string_file_buffer_writer(path) : new sys_string_buffer_writer(&str));
		else w.reset(file ? (sys_buffer_writer*)new sys_byte_file_buffer_writer(path) : new sys_byte_buffer_writer(&bytes));
		sys_json_writer json(w.get());
		for (auto& e : root.items) {
			json << e.name;
			write_doc(s, json, e);
		}
	}
	std::unique_ptr<sys_buffer_reader> r;
	if (text) r.reset(file ? new sys_string_file_buffer_reader(path) : new sys_string_buffer_reader(str));
	else r.reset(file ? (sys_buffer_reader*)new sys_byte_file_buffer_reader(path) : new sys_byte_buffer_reader(bytes.data(), bytes.data() + bytes.size()));
	sys_json_reader json(r.get());
	int times = s.chance(1, 4) ? 2 : 1;
	for (int t = 0; t < times; ++t) {
		std::string why;
		if (!read_doc(s, json, root, text, "the document", why)) pbt::fail("%s: %s", what.substr(0, 1500).c_str(), why.c_str());
	}
	if (file) { r.reset(); unlink(path.c_str()); }
	int nodes = 0, inner = 0;
	std::function<void(const Doc&, int)> count = [&](const Doc& d, int depth) { ++nodes; if (depth >= 2 && d.kind >= K_MAP) ++inner; for (auto& e : d.items) count(e, depth + 1); };
	count(root, 0);
	s.label(text ? "text" : "binary");
	if (inner) s.label("nested");
	s.nontrivial(nodes >= 6 && inner >= 1);
}

// ------------------------------------------------------------------------------------------------- strings
namespace {
int edit_cost(const std::string& a, const std::string& b, int ins, int rep, int del) {
	std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
	for (size_t i = 0; i <= a.size(); ++i)
		for (size_t j = 0; j <= b.size(); ++j) {
			if (!i) d[i][j] = (int)j * ins;
			else if (!j) d[i][j] = (int)i * del;
			else d[i][j] = std::min(std::min(d[i - 1][j] + del, d[i][j - 1] + ins), d[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : rep));
		}
	return d[a.size()][b.size()];
}

char up(char c) { return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c; }
char low(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
template <class F> std::string mapped(std::string t, F f) { for (char& c : t) c = f(c); return t; }

std::string gen_str(pbt::Src& s, int max, int letters) {
	static const char all[] = "ab,AB; .\t0cC_\n\\/xyz9\xe4";
	std::string r;
	int n = (int)s.size(0, max);
	for (int i = 0; i < n; ++i) r += all[s.draw(letters)];
	return r;
}

template <class T> std::string list_of(const std::vector<T>& v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + std::to_string(v[i]);
	return r + "]";
}
}

// wide strings, utf-8 and the local encoding (set to utf-8 here)
static void check_encodings(pbt::Src& s) {
	static bool local = (setenv("LC_ALL", "C.UTF-8", 1), true);
	(void)local;
	std::wstring wide;
	std::string bytes;
	bool seen[4] = {false, false, false, false};
	for (int n = (int)s.size(0, 12); n > 0; --n) {
		unsigned c;
		switch (s.draw(5)) {
		case 0: c = (unsigned)s.range(1, 0x7f); break;
		case 1: c = (unsigned)s.range(0x80, 0x7ff); break;
		case 2: c = (unsigned)s.range(0x800, 0xd7ff); break;
		case 3: c = (unsigned)s.range(0x10000, 0x10ffff); break;
		default: c = (unsigned)s.pick({1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x3ffff, 0x40000, 0x10ffff});
		}
		wide += (wchar_t)c;
		if (c < 0x80) { bytes += (char)c; seen[0] = true; }
		else if (c < 0x800) { bytes += {(char)(0xc0 + c / 64), (char)(0x80 + c % 64)}; seen[1] = true; }
		else if (c < 0x10000) { bytes += {(char)(0xe0 + c / 4096), (char)(0x80 + c / 64 % 64), (char)(0x80 + c % 64)}; seen[2] = true; }
		else { bytes += {(char)(0xf0 + c / 262144), (char)(0x80 + c / 4096 % 64), (char)(0x80 + c / 64 % 64), (char)(0x80 + c % 64)}; seen[3] = true; }
	}
	std::string u = sys_strconvert::utf8_from_utf16(wide), l = sys_strconvert::local_from_utf16(wide);
	CHECK_THAT(u == bytes, "utf8_from_utf16 gives %s instead of %s", quote(u).c_str(), quote(bytes).c_str());
	CHECK_THAT(l == bytes, "local_from_utf16 (utf-8) gives %s instead of %s", quote(l).c_str(), quote(bytes).c_str());
	CHECK_THAT(sys_strconvert::utf16_from_utf8(bytes) == wide, "utf16_from_utf8 of %s gives another text", quote(bytes).c_str());
	CHECK_THAT(sys_strconvert::utf16_from_local(bytes) == wide, "utf16_from_local (utf-8) of %s gives another text", quote(bytes).c_str());
	CHECK_THAT(sys_strconvert::local_from_utf8(bytes) == bytes && sys_strconvert::utf8_from_local(bytes) == bytes, "converting %s between utf-8 and the local utf-8 changes it", quote(bytes).c_str());
	// the arguments of a program
	std::vector<std::string> given;
	std::vector<char*> argv;
	for (int n = (int)s.draw(4); n > 0; --n) given.push_back(gen_str(s, 6, 20));
	for (auto& g : given) { while (g.find('\0') != std::string::npos) g.erase(g.find('\0'), 1); argv.push_back(&g[0]); }
	std::vector<std::string> got(s.draw(3), "old");
	if (s.coin()) got = sys_strhelper::wstring_from_char_array((int)argv.size(), argv.data()); else sys_strhelper::wstring_from_char_array(got, (int)argv.size(), argv.data());
	CHECK_THAT(got == given, "%zu arguments become other %zu strings", given.size(), got.size());
	s.label(seen[3] ? "encodings, four bytes" : seen[2] ? "encodings, three bytes" : "encodings");
	s.nontrivial(seen[0] + seen[1] + seen[2] + seen[3] > 2);
}

PROPERTY(C20, 3000000, 24000000, "the operation had something to do: a separator or old text occurs, both words are not empty and differ, at least three values are combined, characters of at least three lengths are converted",
	"words of 7-bit letters for the functions that ignore case\nthe local encoding is utf-8; valid characters, none of them 0\nnumbers combined into text are checked against printf's text") {
	quiet();
	pbt::Src& s = src;
	switch (s.draw(7)) {
	case 4: check_encodings(s); break;
	case 0: {	// split
		int letters = (int)s.pick({3, 6, 20});
		std::string text = gen_str(s, 30, letters), tag = gen_str(s, 3, letters);
		std::vector<std::string> want, got(s.draw(3), "old");
		if (!text.empty()) {
			if (tag.empty()) want.push_back(text);
			else {
				size_t from = 0, at;
				while ((at = text.find(tag, from)) != std::string::npos) { want.push_back(text.substr(from, at - from)); from = at + tag.size(); }
				want.push_back(text.substr(from));
			}
		}
		if (s.coin()) sys_strhelper::split(got, text, tag); else got = sys_strhelper::split(text, tag);
		CHECK_THAT(got == want, "split %s by %s gives %zu parts instead of %zu, or other ones", quote(text).c_str(), quote(tag).c_str(), got.size(), want.size());
		std::string joined;
		for (size_t i = 0; i < got.size(); ++i) joined += (i ? tag : "") + got[i];
		CHECK_THAT(joined == text, "the parts of %s split by %s do not join to it", quote(text).c_str(), quote(tag).c_str());
		s.label("split");
		s.nontrivial(want.size() > 1);
		break;
	}
	case 1: {	// replace
		int letters = (int)s.pick({2, 4, 20});
		std::string text = gen_str(s, 30, letters), old = gen_str(s, 3, letters), now = gen_str(s, 5, letters), want, got = text;
		size_t from = 0, at;
		bool any = false;
		if (old.empty()) want = text;
		else {
			while ((at = text.find(old, from)) != std::string::npos) { want += text.substr(from, at - from) + now; from = at + old.size(); any = true; }
			want += text.substr(from);
		}
		sys_strhelper::replace(got, now, old);
		CHECK_THAT(got == want, "%s with %s for %s gives %s instead of %s", quote(text).c_str(), quote(now).c_str(), quote(old).c_str(), quote(got).c_str(), quote(want).c_str());
		s.label("replace");
		s.nontrivial(any);
		break;
	}
	case 2: {	// distance
		bool ic = s.coin();
		int letters = (int)s.pick({2, 4, 12});
		int big = s.chance(1, 25) ? 400 : s.chance(1, 5) ? 40 : 12;
		std::string a = gen_str(s, big, letters), b = gen_str(s, big, letters);
		if (s.chance(1, 3)) { b = a; for (int k = (int)s.range(0, 3); k > 0 && !b.empty(); --k) { size_t p = s.draw(b.size()); if (s.coin()) b.erase(p, 1); else b[p] = up(b[p]); } }
		int ins = 1, rep = 1, del = 1;
		bool plain = s.chance(1, 3);
		if (!plain) { ins = (int)s.range(0, 9); rep = (int)s.range(0, 12); del = (int)s.range(0, 9); if (s.chance(1, 6)) { ins *= 100; del *= 77; rep *= 150; } }
		int got = plain && !ic && s.coin() ? sys_strhelper::levenshtein_distance(a, b) : sys_strhelper::levenshtein_distance(a, b, ins, rep, del, ic);
		int want = ic ? edit_cost(mapped(a, up), mapped(b, up), ins, rep, del) : edit_cost(a, b, ins, rep, del);
		CHECK_THAT(got == want, "the distance from %s to %s (insert %d, replace %d, delete %d%s) is %d instead of %d", quote(a).c_str(), quote(b).c_str(), ins, rep, del, ic ? ", any case" : "", got, want);
		s.label(want > 255 ? "distance above 255" : "distance");
		s.nontrivial(!a.empty() && !b.empty() && a != b);
		break;
	}
	case 3: {	// case and trimming
		std::string a = gen_str(s, 12, 12), b = s.coin() ? gen_str(s, 12, 12) : mapped(a, s.coin() ? up : low);
		if (s.chance(1, 4) && !b.empty()) b[s.draw(b.size())] ^= 0x20;
		std::string u = a, l = a;
		sys_strhelper::upper(u);
		sys_strhelper::lower(l);
		CHECK_THAT(u == mapped(a, up) && l == mapped(a, low), "upper or lower of %s is wrong: %s %s", quote(a).c_str(), quote(u).c_str(), quote(l).c_str());
		CHECK_THAT(sys_strhelper::equal(a, b) == (a == b), "equal(%s, %s) is wrong", quote(a).c_str(), quote(b).c_str());
		CHECK_THAT(sys_strhelper::equal(a, b, true) == (mapped(a, up) == mapped(b, up)), "equal(%s, %s) in any case is wrong", quote(a).c_str(), quote(b).c_str());
		char c = s.pick<char>({'a', ' ', '\t', ','});
		std::string t = std::string(s.draw(4), c) + a, want = t;
		while (!want.empty() && want[0] == c) want.erase(0, 1);
		sys_strhelper::trim_left(t, c);
		CHECK_THAT(t == want, "trim_left gives %s instead of %s", quote(t).c_str(), quote(want).c_str());
		// formatted text
		bool lengthy = s.chance(1, 60);
		std::string x = a, f;
		while (x.find('\0') != std::string::npos) x.erase(x.find('\0'), 1);
		if (lengthy) { x += "x"; while (x.size() < 110000) x += x; s.label("formatted text of over 100000 characters"); }
		int v = (int)gen_int(s, 32, true), wide = (int)s.draw(20);
		unsigned long long h = (unsigned long long)gen_int(s, 64, false);
		double d = gen_real(s);
		char piece[800];
		snprintf(piece, sizeof piece, "|%*d|%llx|%.3f%%%c", wide, v, h, d, c);
		f = sys_strhelper::combine("%s|%*d|%llx|%.3f%%%c", x.c_str(), wide, v, h, d, c);
		CHECK_THAT(f == x + piece, "%zu characters formatted with %s give %zu characters: %s", x.size(), piece, f.size(), quote(f).c_str());
		s.label("case and trimming");
		s.nontrivial(a != u && a != l);
		break;
	}
	default: {	// combining
		sys_strcombine c;
		std::string want;
		if (s.coin()) { want = gen_str(s, 5, 20); c = sys_strcombine(want); }
		int n = (int)s.size(0, 8);
		for (int i = 0; i < n; ++i) {
			switch (s.draw(15)) {
			case 0: { b8 v = b8(s.coin()); c << v; want += v ? "true" : "false"; break; }
			case 1: { u8 v = (u8)gen_int(s, 8, false); c << v; want += pbt::strf("%u", v); break; }
			case 2: { i8 v = (i8)s.range(1, 127); c << v; want += v; break; }
			case 3: { u16 v = (u16)gen_int(s, 16, false); c << v; want += pbt::strf("%u", v); break; }
			case 4: { i16 v = (i16)gen_int(s, 16, true); c << v; want += pbt::strf("%d", v); break; }
			case 5: { u32 v = (u32)gen_int(s, 32, false); c << v; want += pbt::strf("%u", v); break; }
			case 6: { i32 v = (i32)gen_int(s, 32, true); c << v; want += pbt::strf("%d", v); break; }
			case 7: { u64 v = (u64)gen_int(s, 64, false); c << v; want += pbt::strf("%llu", v); break; }
			case 8: { i64 v = gen_int(s, 64, true); c << v; want += pbt::strf("%lld", v); break; }
			case 9: { f32 v = (f32)gen_real(s); c << v; want += pbt::strf("%.7f", v); break; }
			case 10: { f64 v = gen_real(s); c << v; want += pbt::strf("%.16f", v); break; }
			case 11: { std::string v = gen_str(s, 6, 20); if (s.coin()) c << v; else c << v.c_str(); want += v; break; }
			case 12: { std::vector<i32> v; for (int k = (int)s.draw(4); k > 0; --k) v.push_back((i32)gen_int(s, 32, true)); c << v; want += list_of(v); break; }
			case 13: {
				std::vector<std::vector<u16>> v((size_t)s.draw(3));
				for (auto& x : v) for (int k = (int)s.draw(3); k > 0; --k) x.push_back((u16)s.draw(300));
				c << v;
				want += "[";
				for (size_t k = 0; k < v.size(); ++k) want += (k ? ", " : "") + list_of(v[k]);
				want += "]";
				break;
			}
			default: {
				std::map<std::string, i32> v;
				for (int k = (int)s.draw(3); k > 0; --k) v[gen_str(s, 3, 3)] = (i32)s.draw(100);
				sys_strcombine inner;
				inner << v;
				c << inner;
				want += "{\n";
				for (auto& e : v) want += e.first + ":" + std::to_string(e.second) + "\n";
				want += "}";
			}
			}
		}
		std::string got = c;
		CHECK_THAT(got == want, "the combined text is %s instead of %s", quote(got).c_str(), quote(want).c_str());
		s.label("combining");
		s.nontrivial(n >= 3);
	}
	}
}
