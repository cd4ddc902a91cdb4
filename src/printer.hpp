// Type erased XML printer (one translation unit per output character set)
#pragma once
#include "vf.hpp"
#include "enc.hpp"
namespace prn {
struct P
{
	virtual ~P() {}
	virtual bool header( const char* e, const char* s)=0;
	virtual bool doctype( const char* r, const char* p, const char* s)=0;
	virtual bool open( const std::string& n)=0;
	virtual bool attr( const std::string& n)=0;
	virtual bool value( const std::string& v)=0;
	virtual bool close()=0;
	virtual bool exitctx()=0;
	virtual void reset( bool sub)=0;
	virtual int state()=0;
	virtual const char* err()=0;
	virtual std::string out()=0;
	virtual P* copy( bool assign)=0;	// copy of the printer with a copy of what was printed
	virtual void assign( P* o)=0;		// o has to be of the same type
};
enum Buf {STRING,VECTOR,MULTI};	// MULTI: the same calls print to a string, a stream and a static buffer that may be too small
P* make( int out, int page, int app, bool sub, int buf);
#define PRN(E) P* make_##E( int page, int app, bool sub, int buf);
PRN(UTF8) PRN(UTF16LE) PRN(UTF16BE) PRN(UCS2LE) PRN(UCS2BE) PRN(UCS4LE) PRN(UCS4BE) PRN(IsoLatin)
#undef PRN
}
