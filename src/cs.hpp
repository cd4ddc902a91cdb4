// Direct access to the character sets and the text scanner of the library
#pragma once
#include "textwolf/textscanner.hpp"
#include "textwolf/charset.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include "vf.hpp"
#include "enc.hpp"
namespace cs {
// an iterator of a user of the library: counts the reads
struct CIt
{
	const char* p; size_t n, pos; size_t* maxread; bool* skipped;
	CIt() :p(0),n(0),pos(0),maxread(0),skipped(0) {}
	CIt( const char* p_, size_t n_, size_t* m_) :p(p_),n(n_),pos(0),maxread(m_),skipped(0) {}
	char operator*() {if (maxread && pos+1>*maxread) *maxread=pos+1; return pos<n?p[pos]:0;}
	CIt& operator++() {++pos; return *this;}
	CIt operator++(int) {CIt rt(*this); ++pos; return rt;}
	int operator-( const CIt& o) const {return (int)(pos-o.pos);}
};
}
namespace textwolf {
template <> struct Traits<cs::CIt> { static inline std::size_t getPosition( const cs::CIt& s, const cs::CIt& i) {return i.pos-s.pos;} };
}
namespace cs {
using namespace textwolf;
template <class CS> struct Info;
#define CSI(N) template <> struct Info<charset::N> {enum {id=enc::N}; static charset::N make( int) {return charset::N();} };
CSI(UTF8) CSI(UTF16LE) CSI(UTF16BE) CSI(UCS2LE) CSI(UCS2BE) CSI(UCS4LE) CSI(UCS4BE)
template <> struct Info<charset::IsoLatin> {enum {id=enc::ISO}; static charset::IsoLatin make( int page) {return charset::IsoLatin( page);} };
// call f.template go<CS>() for the character set with the id
template <class F> void visit( int id, F& f)
{
	switch (id)
	{
		case enc::UTF8: f.template go<charset::UTF8>(); break;
		case enc::UTF16LE: f.template go<charset::UTF16LE>(); break;
		case enc::UTF16BE: f.template go<charset::UTF16BE>(); break;
		case enc::UCS2LE: f.template go<charset::UCS2LE>(); break;
		case enc::UCS2BE: f.template go<charset::UCS2BE>(); break;
		case enc::UCS4LE: f.template go<charset::UCS4LE>(); break;
		case enc::UCS4BE: f.template go<charset::UCS4BE>(); break;
		default: f.template go<charset::IsoLatin>();
	}
}
inline ControlCharacter ctl( uint32_t c)
{
	switch (c)
	{
		case 0: return EndOfText; case '\t': case '\r': case ' ': return Space; case '\n': return EndOfLine;
		case '&': return Amp; case '<': return Lt; case '=': return Equal; case '>': return Gt; case '/': return Slash; case '-': return Dash; case '!': return Exclam;
		case '?': return Questm; case '\'': return Sq; case '"': return Dq; case '[': return Osb; case ']': return Csb;
		case 5: return Undef; // (the scanner treats it like the characters beyond ASCII)
	}
	if (c<32) return Cntrl;
	return c<128?Any:Undef;
}
// Access the current character of the text scanner by some of its views in random order, check them against the expected character and its bytes.
// 'other' is a character set instance for which the copy is not direct (or the same again)
template <class TS, class CS> void views( TS& ts, CS& same, vf::Rng& r, uint32_t c, const std::string& bytes, bool multi=false)
{
	uint32_t a=multi?0x80:c; // (an overlong multi byte form is never taken as ASCII character)
	unsigned n=r.below(5);
	for (unsigned k=0;k<n;++k)
	{
		switch (r.below(5))
		{
			case 0: {uint32_t x=ts.chr(); if (x!=c) vf::fail( "chr() returns "+vf::num(x)+" instead of "+vf::num(c)); break;}
			case 1: {uint32_t x=*ts; if (x!=c) vf::fail( "operator* returns "+vf::num(x)+" instead of "+vf::num(c)); break;}
			case 2: {unsigned char x=ts.ascii(); if (x!=(a<128?a:0)) vf::fail( "ascii() returns "+vf::num(x)+" for "+vf::num(c)); break;}
			case 3: {ControlCharacter x=ts.control(); if (x!=ctl(a)) vf::fail( "control() returns "+vf::num(x)+" for "+vf::num(c)); break;}
			default: {std::string b; ts.copychar( same, b); if (b!=bytes) vf::fail( "copychar() returns '"+vf::show(b)+"' instead of '"+vf::show(bytes)+"'");}
		}
	}
}
}
