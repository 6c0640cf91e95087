// Ghost types used to instantiate the real templates: they have no implementation, only contracts.
#pragma once
#include <string_view>
#include <string>
struct GStr { // append-only string
	long tag;
	GStr();
	GStr(const GStr&);
	~GStr();
	GStr& operator=(const GStr&);
	GStr& operator+=(char);
	GStr& operator+=(const char*);
	GStr& operator+=(std::string_view);
	GStr& operator+=(const GStr&);
	operator std::string_view() const;
	void clear();
};
extern "C" {
	void v_assume(bool);
	void v_assert(bool, const char*);
	long v_nondet_long();
	int v_nondet_int();
	bool v_nondet_bool();
	void v_cover(const char*);
}
