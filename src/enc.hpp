// Reference implementation of the character sets (written from the standards, independent of textwolf).
#pragma once
#include <string>
#include <vector>
#include <stdint.h>
#include <cstdio>
namespace enc {
#include "iso_tables.inc"
typedef std::u32string U;
enum Id {UTF8,UTF16LE,UTF16BE,UCS2LE,UCS2BE,UCS4LE,UCS4BE,ISO,NofEnc};
inline const char* name( int e) {static const char* n[]={"UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE","IsoLatin"}; return n[e];}
inline unsigned unit( int e) {switch(e){case UTF16LE: case UTF16BE: case UCS2LE: case UCS2BE: return 2; case UCS4LE: case UCS4BE: return 4; default: return 1;}}
inline int isoByte( int page, uint32_t cp)	// -1 if not mappable
{
	if (cp < 128) return (int)cp;
	for (int i=0;i<128;++i) if (isoTable[page-1][i]==cp) return i+128;
	return -1;
}
inline bool rep( int e, uint32_t cp, int page=1)
{
	switch (e)
	{
		case UTF8: return cp <= 0x7FFFFFFF;
		case UTF16LE: case UTF16BE: return cp <= 0x10FFFF && !(cp>=0xD800 && cp<=0xDFFF);
		case UCS2LE: case UCS2BE: return cp <= 0xFFFF;
		case UCS4LE: case UCS4BE: return true;
		default: return isoByte( page, cp) >= 0;
	}
}
inline void unit16( std::string& o, unsigned v, bool be) { if (be) {o+=(char)(v>>8); o+=(char)v;} else {o+=(char)v; o+=(char)(v>>8);} }
inline void put( std::string& o, int e, uint32_t c, int page=1)
{
	switch (e)
	{
		case UTF8:
			if (c < 0x80) o+=(char)c;
			else if (c < 0x800) {o+=(char)(0xC0|(c>>6)); o+=(char)(0x80|(c&63));}
			else if (c < 0x10000) {o+=(char)(0xE0|(c>>12)); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63));}
			else if (c < 0x200000) {o+=(char)(0xF0|(c>>18)); o+=(char)(0x80|((c>>12)&63)); o+=(char)(0x80|((c>>6)&63)); o+=(char)(0x80|(c&63));}
			else if (c < 0x4000000) {o+=(char)(0xF8|(c>>24)); for (int s=18;s>=0;s-=6) o+=(char)(0x80|((c>>s)&63));}
			else {o+=(char)(0xFC|(c>>30)); for (int s=24;s>=0;s-=6) o+=(char)(0x80|((c>>s)&63));}
			break;
		case UTF16LE: case UTF16BE:
			if (c > 0xFFFF) {c-=0x10000; unit16( o, 0xD800+(c>>10), e==UTF16BE); unit16( o, 0xDC00+(c&0x3FF), e==UTF16BE);}
			else unit16( o, c, e==UTF16BE);
			break;
		case UCS2LE: case UCS2BE: unit16( o, c, e==UCS2BE); break;
		case UCS4LE: o+=(char)c; o+=(char)(c>>8); o+=(char)(c>>16); o+=(char)(c>>24); break;
		case UCS4BE: o+=(char)(c>>24); o+=(char)(c>>16); o+=(char)(c>>8); o+=(char)c; break;
		default: o+=(char)isoByte( page, c);
	}
}
inline std::string ref( uint32_t c) {char b[32]; snprintf( b, sizeof(b), "&#x%x;", c); return b;}
// printing with the fallback for characters not in the repertoire
inline void print( std::string& o, int e, uint32_t c, int page=1)
{
	if (rep( e, c, page)) put( o, e, c, page);
	else { std::string r=ref(c); for (char k:r) put( o, e, (unsigned char)k, page); }
}
inline std::string enc( const U& u, int e, int page=1) {std::string o; for (char32_t c:u) put( o, e, c, page); return o;}
inline std::string prn( const U& u, int e, int page=1) {std::string o; for (char32_t c:u) print( o, e, c, page); return o;}
inline std::string u8( const U& u) {return enc( u, UTF8);}
inline U asc( const std::string& s) {U u; for (char c:s) u+=(char32_t)(unsigned char)c; return u;}
// byte offsets of the characters (size+1 entries)
inline std::vector<size_t> offsets( const U& u, int e, int page=1)
{
	std::vector<size_t> r; r.reserve( u.size()+1); size_t p=0; std::string t;
	for (char32_t c:u) {r.push_back(p); t.clear(); put( t, e, c, page); p+=t.size();}
	r.push_back(p); return r;
}
// strict decoder, false on ill-formed input
inline bool dec( const std::string& s, int e, U& u, int page=1)
{
	u.clear(); size_t i=0, n=s.size(); const unsigned char* p=(const unsigned char*)s.data();
	while (i<n)
	{
		uint32_t c;
		switch (e)
		{
			case UTF8: {
				unsigned char b=p[i]; int k;
				if (b<0x80) {c=b;k=0;} else if (b<0xC0) return false; else if (b<0xE0) {c=b&31;k=1;} else if (b<0xF0) {c=b&15;k=2;} else if (b<0xF8) {c=b&7;k=3;} else if (b<0xFC) {c=b&3;k=4;} else if (b<0xFE) {c=b&1;k=5;} else return false;
				if (i+k>=n) return false;
				for (int j=1;j<=k;++j) {if ((p[i+j]&0xC0)!=0x80) return false; c=(c<<6)|(p[i+j]&63);}
				i+=k+1; break;}
			case UTF16LE: case UTF16BE: case UCS2LE: case UCS2BE: {
				if (i+2>n) return false;
				bool be=(e==UTF16BE||e==UCS2BE);
				c = be?((p[i]<<8)|p[i+1]):((p[i+1]<<8)|p[i]); i+=2;
				if ((e==UTF16LE||e==UTF16BE) && c>=0xD800 && c<=0xDFFF)
				{
					if (c>=0xDC00 || i+2>n) return false;
					uint32_t lo = be?((p[i]<<8)|p[i+1]):((p[i+1]<<8)|p[i]); i+=2;
					if (lo<0xDC00||lo>0xDFFF) return false;
					c = 0x10000+((c-0xD800)<<10)+(lo-0xDC00);
				}
				break;}
			case UCS4LE: if (i+4>n) return false; c=p[i]|(p[i+1]<<8)|(p[i+2]<<16)|((uint32_t)p[i+3]<<24); i+=4; break;
			case UCS4BE: if (i+4>n) return false; c=p[i+3]|(p[i+2]<<8)|(p[i+1]<<16)|((uint32_t)p[i]<<24); i+=4; break;
			default: c = p[i]<128?p[i]:isoTable[page-1][p[i]-128]; if (c==0 && p[i]) return false; ++i;
		}
		u += (char32_t)c;
	}
	return true;
}
}
