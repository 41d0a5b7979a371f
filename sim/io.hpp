// The I/O seam: simulated stream buffers and a simulated disk.
//
// Every stream the library sees is an ordinary std::basic_istream / std::basic_ostream over one of these buffers;
// the scheduler decides how many characters each refill delivers, how many a sink takes, and where the device fails.
#ifndef SIM_IO_HPP
#define SIM_IO_HPP

#include "core.hpp"
#include <streambuf>
#include <istream>
#include <ostream>

namespace sim {

	// What an I/O fault throws when the device fails by exception.
	struct DeviceError {};

	// --- source
	template<typename C>
	class SimIn : public std::basic_streambuf<C> {
		typedef std::basic_streambuf<C> base;
	public:
		typedef typename base::int_type int_type;
		typedef typename base::traits_type traits_type;
		enum End { eof, throws };
		// `chunky`: refills deliver 1..k characters, as the scheduler decides; otherwise everything at once
		SimIn(Sim& s, std::basic_string<C> const& data, bool chunky, End end = eof, std::size_t budget = 0)
			: s_(s), buf_(data), delivered_(0), chunky_(chunky), end_(end), refills_(0), budget_(budget ? budget : 64 * data.size() + 4096), hit_end_(false)
		{
			C* p = buf_.empty() ? 0 : &buf_[0];
			this->setg(p, p, p);
		}
		std::size_t consumed() const { return this->gptr() - this->eback(); }
		std::size_t available() const { return buf_.size() - consumed(); }
		bool hit_end() const { return hit_end_; }
	protected:
		virtual int_type underflow() {
			if (++refills_ > budget_) throw StepBudget{"input: more refills than the step budget allows"};
			s_.step();
			if (this->gptr() < this->egptr()) return traits_type::to_int_type(*this->gptr());
			if (delivered_ == buf_.size()) {
				if (end_ == throws) {
					if (!hit_end_) s_.fault("read-throws");
					hit_end_ = true;
					throw DeviceError();
				}
				hit_end_ = true;
				return traits_type::eof();
			}
			std::size_t n = buf_.size() - delivered_;
			if (chunky_) {
				std::size_t k = 1 + s_.choose(7);
				if (k < n) { n = k; s_.fault("short-read"); }
			}
			delivered_ += n;
			C* p = &buf_[0];
			this->setg(p, p + (delivered_ - n), p + delivered_);
			return traits_type::to_int_type(*this->gptr());
		}
	private:
		Sim& s_;
		std::basic_string<C> buf_;
		std::size_t delivered_;
		bool chunky_;
		End end_;
		std::size_t refills_, budget_;
		bool hit_end_;
	};

	// --- sink
	template<typename C>
	class SimOut : public std::basic_streambuf<C> {
		typedef std::basic_streambuf<C> base;
	public:
		typedef typename base::int_type int_type;
		typedef typename base::traits_type traits_type;
		enum Fail { none, refuses, throws };
		// takes `capacity` characters, then fails as told
		SimOut(Sim& s, Fail fail = none, std::size_t capacity = ~std::size_t(0))
			: s_(s), fail_(fail), cap_(capacity), lost_(0), writes_(0)
		{}
		std::basic_string<C> const& data() const { return out_; }
		std::size_t lost() const { return lost_; }	// how many attempts were turned away
	protected:
		virtual int_type overflow(int_type c) {
			tick();
			if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
			if (fail_ != none && out_.size() >= cap_) return down(), traits_type::eof();
			out_ += traits_type::to_char_type(c);
			return c;
		}
		virtual std::streamsize xsputn(C const* p, std::streamsize n) {
			tick();
			std::streamsize k = n;
			if (fail_ != none && out_.size() + (std::size_t)n > cap_) k = (std::streamsize)(cap_ - out_.size());
			out_.append(p, (std::size_t)k);
			if (k < n) down();
			return k;
		}
	private:
		void tick() {
			s_.step();
			if (++writes_ > 1000000) throw StepBudget{"output: more writes than the step budget allows"};
		}
		void down() {
			++lost_;
			s_.fault(fail_ == throws ? "write-throws" : "device-full");
			if (fail_ == throws) throw DeviceError();
		}
		Sim& s_;
		Fail fail_;
		std::size_t cap_;
		std::basic_string<C> out_;
		std::size_t lost_, writes_;
	};

	template<typename C>
	std::basic_string<C> widen(std::string const& s) { return std::basic_string<C>(s.begin(), s.end()); }

	// --- disk: named files, a durable image and an in-flight one
	template<typename C>
	class SimDisk {
	public:
		explicit SimDisk(Sim& s) : s_(s) {}
		// a write that is only durable after sync
		void write(std::string const& name, std::basic_string<C> const& data) { pending_[name] = data; }
		void sync() {
			for (auto& p : pending_) durable_[p.first] = p.second;
			pending_.clear();
		}
		bool has(std::string const& name) const { return durable_.count(name) || pending_.count(name); }
		std::basic_string<C> const& read(std::string const& name) {
			auto p = pending_.find(name);
			return p != pending_.end() ? p->second : durable_[name];
		}
		// power loss: un-synced writes are lost or torn (an arbitrary prefix survives)
		void crash() {
			s_.fault("crash");
			for (auto& p : pending_) {
				std::uint64_t how = s_.choose(3);
				if (how == 0) s_.fault("lost-write");
				else if (how == 1) { s_.fault("torn-write"); durable_[p.first] = p.second.substr(0, s_.choose(p.second.size() + 1)); }
				else durable_[p.first] = p.second;
			}
			pending_.clear();
		}
	private:
		Sim& s_;
		std::map<std::string, std::basic_string<C> > durable_, pending_;
	};
}	// namespace sim

#endif
