// Objects of the library under test with a uniform interface
#pragma once
#include "vf.hpp"
namespace vf {
typedef std::string Str;
struct Op { unsigned a, b; Str s, t; Op( unsigned a_=0, unsigned b_=0, const Str& s_=Str(), const Str& t_=Str()) :a(a_),b(b_),s(s_),t(t_) {} };
typedef std::vector<Op> Script;
// an object under test with a uniform interface
struct Obj
{
	virtual ~Obj() {}
	virtual Str step( const Op&)=0;
	virtual Obj* copy() const=0;
	virtual void assign( const Obj*)=0;
};
// resources (documents, streams, automatons) used by the objects of one case; outlive the objects
struct World
{
	virtual ~World() {}
	virtual Obj* fresh()=0;
	virtual Obj* other()=0;	// of the same type, but with other contents
	virtual Op op( Rng&)=0;
	virtual bool shareable() const {return false;}	// fresh() and op() do not change the world
	virtual const char* name() const=0;
	virtual size_t length() const {return 60;}
};
inline bool& afterFailure() {static bool f=false; return f;}	// an allocation failed before
typedef World* (*Maker)( Rng&);
void addMakers( std::vector<Maker>&, int part);
extern void makers1( std::vector<Maker>&), makers2( std::vector<Maker>&), makers3( std::vector<Maker>&), makers4( std::vector<Maker>&), makers5( std::vector<Maker>&), makers6( std::vector<Maker>&);
inline const std::vector<Maker>& makers() {static std::vector<Maker> v; if (v.empty()) {makers1(v); makers2(v); makers3(v); makers4(v); makers5(v); makers6(v);} return v;}
}
