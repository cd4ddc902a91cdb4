// C04: ill-formed text decodes deterministically, makes progress, never passes as valid
#include "cs.hpp"
#include <sstream>
using namespace cs;
namespace vf {
extern const Check check;
const Check check={"C04",1600000,20000000,"distinct byte sequences that are not well-formed in their character set",0,30};
void init() {}
struct Chr {uint32_t c; std::string b; size_t pos; bool defined;};
// what has to be read: byte ranges and values (defined=false: only progress and consistency are required)
static bool model( int id, int page, const std::string& s, std::vector<Chr>& out, bool& illformed)
{
	size_t i=0; illformed=false;
	auto byte=[&]( size_t k)->unsigned {return k<s.size()?(unsigned char)s[k]:0u;};
	while (i<s.size())
	{
		Chr c; c.pos=i; c.defined=true; size_t n=1; uint32_t v;
		if (id==enc::UTF8)
		{
			unsigned b=byte(i); n = b<0x80?1:b<0xC0?0:b<0xE0?2:b<0xF0?3:b<0xF8?4:b<0xFC?5:b<0xFE?6:b<0xFF?7:8;
			if (n<=1) {v=n?b:0x7FFFFFFF; if (!n) illformed=true; n=1;}
			else if (n>6) {c.defined=false; v=0; illformed=true;}
			else
			{
				v=b&(0x7F>>n); bool bad=false;
				for (size_t k=1;k<n;++k) {unsigned x=byte(i+k); if ((x&0xC0)!=0x80) bad=true; v=(v<<6)|(x&63);}
				if (bad) {v=0x7FFFFFFF; illformed=true;}
			}
		}
		else if (id==enc::UCS4LE||id==enc::UCS4BE)
		{
			n=4; v=0; for (size_t k=0;k<4;++k) v|=byte(i+k)<<(id==enc::UCS4LE?8*k:24-8*k);
			if (i+n>s.size()) illformed=true;
		}
		else if (id==enc::ISO) {unsigned b=byte(i); v=b<128?b:enc::isoTable[page-1][b-128]; if (b&&!v) {c.defined=false; illformed=true;}}
		else
		{
			bool be=id==enc::UTF16BE||id==enc::UCS2BE; n=2; v=be?(byte(i)<<8|byte(i+1)):(byte(i+1)<<8|byte(i));
			if (i+n>s.size()) illformed=true;
			if (id<=enc::UTF16BE && v>=0xD800 && v<=0xDFFF)
			{
				if (v>=0xDC00) {illformed=true; /* a single low surrogate is delivered as it is */}
				else
				{
					uint32_t lo=be?(byte(i+2)<<8|byte(i+3)):(byte(i+3)<<8|byte(i+2)); n=4;
					if (lo<0xDC00||lo>0xDFFF) {v=0xFFFF; illformed=true;} else v=0x10000+((v-0xD800)<<10)+(lo-0xDC00);
				}
			}
		}
		c.c=v; for (size_t k=0;k<n;++k) c.b+=(char)byte(i+k);
		out.push_back(c); i+=n;
	}
	return true;
}
struct Run
{
	int id,page; Rng& r; const std::string& s; const std::vector<Chr>& m;
	template <class It, class CS> void readAll( It it, CS c, const char* what, std::vector<uint32_t>& got, size_t* maxread, bool copies)
	{
		typedef TextScanner<It,CS> TS; TS ts( c, it); CS same(c);
		for (size_t k=0;k<m.size();++k)
		{
			if (ts.getPosition()!=m[k].pos) fail( std::string(what)+": the characters do not cover the bytes one after the other, position "+num(ts.getPosition())+" instead of "+num(m[k].pos));
			uint32_t v=m[k].c;
			if (!m[k].defined) {v=got.size()>k?got[k]:0; if (got.size()<=k) {TS cp( ts); v=ts.chr(); }}
			views( ts, same, r, v, m[k].b, id==enc::UTF8&&(unsigned char)m[k].b[0]>127);
			if (got.size()<=k) got.push_back( v);
			if (ts.getPosition()!=m[k].pos) fail( std::string(what)+": reading changed the position");
			if (copies && r.chance(1,16)) {TS cp( ts); if (cp.chr()!=v) fail( "copy has another character"); ++cp; if (cp.getPosition()!=m[k].pos+m[k].b.size()) fail( "copy is at another position");}
			++ts;
			if (maxread && *maxread>m[k].pos+m[k].b.size()) fail( std::string(what)+": read beyond the character");
		}
		for (int k=0;k<6;++k)
		{
			switch (r.below(4)) {case 0: if (ts.chr()) fail( "character after the end"); break; case 1: if (ts.control()!=EndOfText) fail( "no end of text after the end"); break; case 2: if (ts.ascii()) fail( "ASCII character after the end"); break; default: break;}
			if (r.chance(1,2)) ++ts;
		}
	}
	template <class CS> void go()
	{
		CS c=Info<CS>::make( page); std::vector<uint32_t> got;
		char* heap=(char*)malloc( s.size()?s.size():1); memcpy( heap, s.data(), s.size());
		size_t mr=0;
		readAll( CIt( heap, s.size(), &mr), c, "user iterator", got, &mr, true);
		readAll( CIt( heap, s.size(), 0), c, "user iterator again", got, 0, true);
		readAll( SrcIterator( heap, s.size()), c, "SrcIterator", got, 0, true);
		readAll( CStringIterator( heap, s.size()), c, "CStringIterator", got, 0, true);
		std::istringstream ss( s); StdInputStream is( ss); readAll( IStreamIterator( &is, 1+r.below(12)), c, "IStreamIterator", got, 0, false);
		free( heap);
		count( "characters read", m.size()*5);
	}
};
void run( uint64_t idx, Rng& r)
{
	int id=r.chance(1,3)?(int)enc::UTF8:r.chance(1,2)?(int)(enc::UTF16LE+r.below(2)):(int)r.below( enc::NofEnc); int page=id==enc::ISO?1+(int)r.below(9):1;
	std::string s;
	if (idx < 65536*2 && idx%2==0 && thorough()) {id=enc::UTF8; s+=(char)(idx>>9); s+=(char)(idx>>1); s+='A'; s+=(char)0x80;}
	else
	{
		unsigned n=1+r.below(24);
		for (unsigned k=0;k<n;++k)
		{
			switch (r.below(10))
			{
				case 0: case 1: {uint32_t x; do {x=r.chance(1,3)?r.below(0x80):r.chance(1,2)?r.below(0x10000):r.below(0x110000);} while (!enc::rep( id, x, page)); enc::put( s, id, x, page); break;}
				case 2: case 3: s+=(char)r.below(256); break;
				case 4: {static const unsigned char x[]={0x00,0x7F,0x80,0xBF,0xC0,0xC1,0xDF,0xE0,0xEF,0xF0,0xF4,0xF7,0xF8,0xFB,0xFC,0xFD,0xFE,0xFF,0xD8,0xDB,0xDC,0xDF}; s+=(char)x[r.below(sizeof(x))]; break;}
				case 5: { // sequence cut or with one byte replaced
					std::string t; uint32_t x=r.chance(1,4)?r.u64()&0x7FFFFFFF:r.below(0x110000); if (enc::rep( id, x, page)) enc::put( t, id, x, page); else t="\xE2\x82\xAC";
					if (r.chance(1,2)) t.resize( 1+r.below( t.size())); else t[r.below(t.size())]=(char)(r.chance(1,2)?r.below(256):r.chance(1,2)?'<':'A');
					s+=t; break;}
				case 6: { // surrogates in any combination
					int e=id==enc::UTF16BE||id==enc::UCS2BE; for (unsigned z=1+r.below(3);z;--z) enc::unit16( s, r.chance(1,2)?0xD800+r.below(0x400):r.chance(1,2)?0xDC00+r.below(0x400):r.chance(1,2)?0xD7FF+r.below(3):0xDBFC +r.below(4), e); break;}
				case 7: s+=std::string( 1+r.below(4), (char)0x80); break;
				case 8: s+=(char)('A'+r.below(26)); break;
				default: { // overlong forms and values out of range
					static const char* o[]={"\xC0\x80","\xC1\xBF","\xE0\x80\x80","\xE0\x9F\xBF","\xF0\x80\x80\x80","\xF8\x88\x80\x80\x80","\xFC\x84\x80\x80\x80\x80","\xED\xA0\x80","\xED\xBF\xBF","\xF4\x90\x80\x80","\xFE\x83\xBF\xBF\xBF\xBF\xBF","\xEF\xBF\xBF","\xEF\xBB\xBF"}; s+=o[r.below(13)];}
			}
			if (id!=enc::UTF8&&id!=enc::ISO&&r.chance(1,2)) while (s.size()%enc::unit(id)) s+=(char)r.below(256);
		}
	}
	std::vector<Chr> m; bool ill; model( id, page, s, m, ill);
	note( std::string(enc::name(id))+" page "+num(page)+" bytes "+show(s));
	Run x={id,page,r,s,m}; cs::visit( id, x);
	if (ill) distinct( hash(s)+id*11+page);
	count( (std::string(ill?"ill-formed ":"well-formed ")+enc::name(id)).c_str());
	for (auto& k:m) {if (k.c==(id==enc::UTF8?0x7FFFFFFFu:0xFFFFu)) count( "invalid character markers");}
	if (ill && idx<40) sample( std::string(enc::name(id))+" "+show(s));
}
}
