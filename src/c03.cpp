// C03: ISO Latin code pages map bytes and characters as the ISO standards define
#include "cs.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlprinter.hpp"
using namespace cs;
namespace vf {
extern const Check check;
const Check check={"C03",9*64+81+16000,9*64+81+200000,"distinct (code page, character) pairs mapped back to bytes, (page,page) pairs transcoded and texts",0,60};
void init() {}
static uint32_t ref( int p, unsigned b) {return b<128?b:enc::isoTable[p-1][b-128];}
static void table( uint64_t k, Rng& r)
{
	int p=1+k%9; uint32_t from=(k/9)*0x4400, to=from+0x4400; // 64 parts cover 0..0x10FFFF
	charset::IsoLatin c( p); note( "code page "+num(p)+" characters "+num(from)+".."+num(to));
	uint64_t mapped=0;
	for (uint32_t x=from;x<to;++x)
	{
		std::string o; c.print( x, o); int b=enc::isoByte( p, x); std::string e=b>=0?std::string(1,(char)b):enc::ref(x);
		if (o!=e) fail( "character "+num(x)+" printed in code page "+num(p)+" as '"+show(o)+"' instead of '"+show(e)+"'");
		char iv=c.invcode( x); if ((unsigned char)iv!=(b<0?0:b)) fail( "invcode("+num(x)+") of code page "+num(p)+" returns "+num((unsigned char)iv));
		if (b>=0) ++mapped;
	}
	distinctN( to-from); count( "characters mapped to a byte", mapped); count( "characters without a byte", to-from-mapped);
	if (k<9)
	{
		// all bytes, also through a copy of the code page
		charset::IsoLatin cp( c); charset::IsoLatin as( 1+r.below(9)); as=c;
		for (unsigned b=0;b<256;++b)
		{
			uint32_t e=ref( p, b); char ch=(char)b;
			for (int q=0;q<3;++q)
			{
				charset::IsoLatin& w=q==0?c:q==1?cp:as;
				TextScanner<SrcIterator,charset::IsoLatin> ts( w, SrcIterator( &ch, 1));
				uint32_t v=ts.chr();
				if (e||!b) {if (v!=e) fail( "byte "+num(b)+" of code page "+num(p)+" read as "+num(v)+" instead of "+num(e));}
				else if (v<0xA0 || enc::isoByte( p, v)>=0) fail( "byte "+num(b)+" not assigned in code page "+num(p)+" read as "+num(v));
				if (w.ucharcode( ch)!=v) fail( "ucharcode of byte "+num(b));
				if (ts.ascii()!=(b<128?b:0) || ts.control()!=ctl( b<128?b:0x80)) fail( "ASCII value or control class of byte "+num(b)+" in code page "+num(p));
			}
			count( "bytes mapped to characters");
		}
		static const unsigned bad[]={0,10,11,12,15,16,100,255,256,257,0x80000000u,0xFFFFFFFFu};
		for (unsigned b:bad)
		{
			bool thrown=false; try {charset::IsoLatin x( b);} catch (const exception& e) {thrown=true; if (e.cause!=throws_exception::CodePageIndexNotSupported) fail( std::string("wrong exception for an unknown code page: ")+e.what());}
			if (!thrown) fail( "unknown code page "+num(b)+" accepted");
			count( "unknown code pages refused");
		}
		charset::IsoLatin def; if (charset::IsoLatin::is_equal( c, def)!=(p==1)) fail( "default code page is not 1");
	}
}
static void pair( int p, int q, Rng& r)
{
	charset::IsoLatin a(p), b(q); note( "code pages "+num(p)+" to "+num(q));
	if (charset::IsoLatin::is_equal( a, b)!=(p==q)) fail( "is_equal of "+num(p)+" and "+num(q));
	charset::IsoLatin a2(a), b2(b); if (charset::IsoLatin::is_equal( a2, b2)!=(p==q)||!charset::IsoLatin::is_equal( a2, a)) fail( "is_equal of copies of "+num(p)+" and "+num(q));
	std::string s; for (unsigned k=0;k<600;++k) {unsigned x=k<255?k+1:1+r.below(255); if (ref( p, x)) s+=(char)x;}
	std::string exp; for (char c:s) enc::print( exp, enc::ISO, ref( p, (unsigned char)c), q);
	if (p==q && exp!=s) fail( "internal");
	std::string o; TextScanner<SrcIterator,charset::IsoLatin> ts( a, SrcIterator( s.data(), s.size()));
	for (size_t k=0;k<s.size();++k,++ts) {if (r.chance(1,3)) ts.control(); ts.copychar( b, o); if (r.chance(1,8)&&ts.chr()!=ref( p, (unsigned char)s[k])) fail( "chr after copychar");}
	if (o!=exp) fail( "text copied from code page "+num(p)+" to "+num(q)+" is '"+show(o)+"' instead of '"+show(exp)+"'");
	std::string o2; TextScanner<SrcIterator,charset::IsoLatin> t2( a, SrcIterator( s.data(), s.size()));
	for (size_t k=0;k<s.size();++k,++t2) b.print( t2.chr(), o2);
	if (o2!=exp) fail( "text printed from code page "+num(p)+" to "+num(q)+" differs");
	count( "characters transcoded", s.size()*2); count( "code page pairs"); distinctN(1);
}
static void text( Rng& r)
{
	// through the XML scanner and the XML printer
	int p=1+r.below(9), q=1+r.below(9); enc::U u; unsigned n=1+r.below(60);
	for (unsigned k=0;k<n;++k) {unsigned b=r.chance(1,3)?'a'+r.below(26):0xA0+r.below(0x60); if (ref(p,b)) u+=(char32_t)ref(p,b);}
	if (u.empty()) u=U"x";
	std::string t=enc::enc( u, enc::ISO, p), doc="<"+t+" a=\""+t+"\">"+t+"</"+t+">";
	note( "document in code page "+num(p)+": "+show( doc));
	typedef XMLScanner<SrcIterator,charset::IsoLatin,charset::UTF8,std::string> S; std::string e=enc::u8( u);
	S sc( charset::IsoLatin(p), SrcIterator( doc.data(), doc.size()));
	static const int ty[]={XMLScannerBase::OpenTag,XMLScannerBase::TagAttribName,XMLScannerBase::TagAttribValue,XMLScannerBase::Content,XMLScannerBase::CloseTag};
	for (int k=0;k<5;++k)
	{
		int x=sc.nextItem(); if (x!=ty[k] || (k!=1 && std::string( sc.getItemPtr(), sc.getItemSize())!=e)) fail( "scanned as '"+show( std::string( sc.getItemPtr(), sc.getItemSize()))+"' expected '"+show(e)+"'");
	}
	typedef XMLScanner<SrcIterator,charset::IsoLatin,charset::IsoLatin,std::string> S2; std::string e2; for (char32_t c:u) enc::print( e2, enc::ISO, c, 1);
	S2 s2( charset::IsoLatin(p), SrcIterator( doc.data(), doc.size())); for (int k=0;k<3;++k) s2.nextItem();
	if (std::string( s2.getItemPtr(), s2.getItemSize())!=e2) fail( "attribute value scanned from code page "+num(p)+" to page 1 is '"+show( std::string( s2.getItemPtr(), s2.getItemSize()))+"' expected '"+show(e2)+"'");
	// printed in page q and read again
	XMLPrinter<charset::IsoLatin,charset::UTF8,std::string> pr( charset::IsoLatin(q), true); std::string o; bool ok=pr.printOpenTag( "r", 1, o); ok=ok&&pr.printValue( e.data(), e.size(), o); ok=ok&&pr.printCloseTag( o);
	if (!ok) fail( "printing failed");
	S s3( charset::IsoLatin(q), SrcIterator( o.data(), o.size())); s3.nextItem(); s3.nextItem();
	if (std::string( s3.getItemPtr(), s3.getItemSize())!=e) fail( "text printed in code page "+num(q)+" '"+show(o)+"' reads back as '"+show( std::string( s3.getItemPtr(), s3.getItemSize()))+"' expected '"+show(e)+"'");
	distinct( hash(doc)+p*31+q); count( "documents"); 
	if (r.chance(1,50)) sample( "page "+num(p)+": "+show(doc));
}
void run( uint64_t idx, Rng& r)
{
	if (idx<9*64) table( idx, r);
	else if (idx<9*64+81) {int k=idx-9*64; pair( 1+k%9, 1+k/9, r);}
	else text( r);
}
}
