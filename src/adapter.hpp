// Type erased access to the scanner instances (one translation unit per input character set).
#pragma once
#include "vf.hpp"
#include "enc.hpp"
#include "doc.hpp"
#include <cstddef>
namespace scan {
enum Src {WHOLE,SETSOURCE,PUTINPUT,CSTR,CSTRSIZE,ISTREAM,STDISTREAM,CHARPTR,STDSTRING};
inline const char* srcName( int s) {static const char* n[]={"chunk","setSource","putInput","cstring","cstring+size","istream","std::istream","char*","std::string"}; return n[s];}
enum Buf {STRING,STATIC,VECTOR};
struct Req
{
	int in, inPage, out;
	int src;
	std::vector<size_t> cuts;		// increasing byte offsets of chunk borders
	bool finalEmpty;			// the end is delivered as an empty last chunk
	const doc::Ents* ents;
	std::vector<unsigned short> masks;	// used cyclic for the calls, empty = everything
	int buf; size_t cap;			// output buffer
	size_t bufsize;				// istream
	std::vector<size_t> blocks;		// sizes of the blocks delivered by the stream (cyclic)
	size_t failAt; int failCode;		// stream error after so many bytes
	int failWith;				// 1: the error is reported together with the last data and by the calls following, 2: only together with the last data
	int ctor;				// constructor of the scanner: 0 (character set, source), 1 (source), 2 (character set) and setSource, 3 () and setSource; where possible, -1: chosen by the hash of the input
	int extraCalls;				// calls after the first error or the end
	bool useIterator;			// iterate with XMLScanner::iterator
	bool reuse;				// reuse one buffer for all chunks (contents overwritten)
	Req( int in_=enc::UTF8, int out_=enc::UTF8, int src_=WHOLE) :in(in_),inPage(1),out(out_),src(src_),finalEmpty(false),ents(0),buf(STRING),cap(0),bufsize(8192),failAt((size_t)-1),failCode(5),failWith(0),ctor(-1),extraCalls(0),useIterator(false),reuse(false) {}
};
struct Item
{
	int type; std::string val; size_t tokpos,pos; int err; bool masked; bool overflow; bool term;
};
struct Res
{
	std::vector<Item> ev;
	bool limit;		// more calls than the limit
	bool thrown; std::string what; int cause;
	size_t nchunks, nreads;
	Res() :limit(false),thrown(false),cause(0),nchunks(0),nreads(0) {}
};
Res run( const Req& q, const std::string& bytes);
Res run_UTF8( const Req& q, const std::string& bytes);
Res run_UTF16LE( const Req& q, const std::string& bytes);
Res run_UTF16BE( const Req& q, const std::string& bytes);
Res run_UCS2LE( const Req& q, const std::string& bytes);
Res run_UCS2BE( const Req& q, const std::string& bytes);
Res run_UCS4LE( const Req& q, const std::string& bytes);
Res run_UCS4BE( const Req& q, const std::string& bytes);
Res run_ISO( const Req& q, const std::string& bytes);
#ifdef ADAPTER_ALL
Res run( const Req& q, const std::string& bytes)
{
	switch (q.in)
	{
		case enc::UTF8: return run_UTF8( q, bytes);
#ifndef ADAPTER_UTF8_ONLY
		case enc::UTF16LE: return run_UTF16LE( q, bytes);
		case enc::UTF16BE: return run_UTF16BE( q, bytes);
		case enc::UCS2LE: return run_UCS2LE( q, bytes);
		case enc::UCS2BE: return run_UCS2BE( q, bytes);
		case enc::UCS4LE: return run_UCS4LE( q, bytes);
		case enc::UCS4BE: return run_UCS4BE( q, bytes);
		case enc::ISO: return run_ISO( q, bytes);
#endif
	}
	abort();
}
#endif
inline std::string show( const Res& r, size_t from=0, size_t n=20)
{
	std::string s; for (size_t i=from;i<r.ev.size()&&i<from+n;++i) {const Item& e=r.ev[i]; s+=doc::typeName( e.type); if (e.type==doc::ErrorOccurred) s+="("+vf::num(e.err)+":"+vf::show(e.val,80)+")"; else s+=(e.masked?"'<masked>":"'"+vf::show( e.val, 80))+"'@"+vf::num(e.tokpos)+".."+vf::num(e.pos); s+=" ";}
	if (r.limit) s+="... more elements than possible";
	if (r.thrown) s+=" exception "+r.what;
	return s;
}
// Compare with expected elements, encoding of text 'out'; empty string if equal
std::string compare( const Res& r, const doc::Evs& ev, int out, const std::vector<size_t>* offs=0, unsigned unitsize=0);
// Compare two results (types, texts, errors; positions optional)
std::string diff( const Res& a, const Res& b, bool positions);
}
