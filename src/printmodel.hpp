// Model of the XML printer: which calls fit, and the tree that has to be read back
#pragma once
#include "printer.hpp"
#include "adapter.hpp"
namespace pm {
typedef std::u32string U;
using vf::Rng;
struct Tok
{
	int t; U a,b,c; bool top;	// 'h' header(encoding,standalone) 'd' doctype(root,public,system) 'o' open 'a' attribute(name,value) 'c' close(name) 't' text
	Tok( int t_, const U& a_=U(), const U& b_=U(), const U& c_=U(), bool top_=false) :t(t_),a(a_),b(b_),c(c_),top(top_) {}
	bool operator==( const Tok& o) const {return t==o.t&&a==o.a&&b==o.b&&c==o.c;}
};
typedef std::vector<Tok> Toks;
inline std::string show( const Toks& k, size_t from, size_t n=8)
{
	std::string s; for (size_t i=from;i<k.size()&&i<from+n;++i) {s+=(char)k[i].t; s+="("+vf::show( enc::u8( k[i].a),60); if (!k[i].b.empty()) s+=","+vf::show( enc::u8( k[i].b),60); if (!k[i].c.empty()) s+=","+vf::show( enc::u8( k[i].c),60); s+=") ";} return s;
}
// merge texts, drop white space of the top level
inline Toks norm( const Toks& k)
{
	Toks r;
	for (const Tok& x:k)
	{
		if (x.t=='t')
		{
			U v=x.a; if (x.top) {U w; for (char32_t c:v) if (c>32) w+=c; v=w;}
			if (v.empty()) continue;
			if (!r.empty()&&r.back().t=='t') {r.back().a+=v; continue;}
			r.push_back( x); r.back().a=v; continue;
		}
		r.push_back( x);
	}
	return r;
}
// strict XML reader for what the printer can write. err is set if the text is not well-formed
struct Reader
{
	const U& s; size_t i; std::string err; Toks out; std::vector<U> stack;
	Reader( const U& s_) :s(s_),i(0) {}
	bool fail( const char* m) {if (err.empty()) err=std::string(m)+" at character "+vf::num(i); return false;}
	bool lit( const char* t) {size_t k=i; for (;*t;++t,++k) if (k>=s.size()||s[k]!=(char32_t)*t) return false; i=k; return true;}
	static bool namec( char32_t c) {return c>=128 || isalnum((int)c) || c=='_'||c==':'||c=='.'||c=='-';}
	bool name( U& n) {n.clear(); while (i<s.size()&&namec(s[i])) n+=s[i++]; return !n.empty()||fail( "name expected");}
	bool ref( U& v)
	{
		static const char* nm[]={"&lt;","&gt;","&amp;","&apos;","&quot;"}; static const char32_t nv[]={'<','>','&','\'','"'};
		for (int k=0;k<5;++k) if (lit( nm[k])) {v+=nv[k]; return true;}
		uint64_t x=0; int base=10; size_t b=i;
		if (lit( "&#x")) base=16; else if (!lit( "&#")) return fail( "bad reference");
		size_t d=i; for (;i<s.size()&&s[i]!=';';++i) {int h=doc::Ref::hex( s[i]); if (h>=base) {i=b; return fail( "bad reference");} x=x*base+h; if (x>0x10FFFF) {i=b; return fail( "reference out of range");}}
		if (i==d||i>=s.size()) {i=b; return fail( "bad reference");}
		++i; if (x==0) return fail( "reference to the null character"); v+=(char32_t)x; return true;
	}
	bool attval( U& v)
	{
		if (i>=s.size()||(s[i]!='"'&&s[i]!='\'')) return fail( "quote expected");
		char32_t q=s[i++]; v.clear();
		while (i<s.size()&&s[i]!=q)
		{
			if (s[i]=='<') return fail( "'<' in attribute value");
			if (s[i]=='&') {if (!ref( v)) return false; continue;}
			char32_t c=s[i++]; if (c=='\t'||c=='\n') c=' '; if (c=='\r') {c=' '; if (i<s.size()&&s[i]=='\n') ++i;} v+=c; // normalisation of the XML standard
		}
		if (i>=s.size()) return fail( "attribute value not terminated");
		++i; return true;
	}
	void ws() {while (i<s.size()&&(s[i]==' '||s[i]=='\n'||s[i]=='\t'||s[i]=='\r')) ++i;}
	bool run( bool fragment)
	{
		bool root=false; U a,b,c,v;
		if (lit( "<?xml"))
		{
			ws(); if (!lit( "version=")||!attval( v)||v!=U"1.0") return fail( "version");
			ws(); if (!lit( "encoding=")||!attval( a)) return fail( "encoding");
			ws(); if (lit( "standalone=")&&!attval( b)) return false;
			if (!lit( "?>")) return fail( "end of header"); out.push_back( Tok( 'h', a, b));
		}
		else if (!fragment) return fail( "no header");
		while (i<s.size())
		{
			if (s[i]!='<')
			{
				v.clear();
				while (i<s.size()&&s[i]!='<')
				{
					if (s[i]=='&') {if (!ref( v)) return false; continue;}
					if (s[i]=='>'&&v.size()>=2&&v.substr( v.size()-2)==U"]]") return fail( "']]>' in text");
					char32_t x=s[i++]; if (x=='\r') {x='\n'; if (i<s.size()&&s[i]=='\n') ++i;} v+=x;
				}
				if (stack.empty()&&!fragment) for (char32_t x:v) if (x>32) return fail( "text outside of the root element");
				out.push_back( Tok( 't', v, U(), U(), stack.empty()));
				continue;
			}
			if (lit( "<!DOCTYPE "))
			{
				if (root||!stack.empty()) return fail( "document type inside of the document");
				if (!name( a)) return false; b.clear(); c.clear();
				if (lit( " PUBLIC ")) {if (!attval( b)) return false; if (!lit( " ")) return fail( "space"); if (!attval( c)) return false;}
				else if (lit( " SYSTEM ")) {if (!attval( c)) return false;}
				if (!lit( ">")) return fail( "end of document type"); out.push_back( Tok( 'd', a, b, c)); continue;
			}
			if (lit( "</"))
			{
				if (!name( a)) return false; ws(); if (!lit( ">")) return fail( "end of close tag");
				if (stack.empty()) return fail( "close tag without open tag"); if (stack.back()!=a) return fail( "close tag of another element");
				stack.pop_back(); out.push_back( Tok( 'c', a)); continue;
			}
			if (lit( "<"))
			{
				if (stack.empty()) {if (root&&!fragment) return fail( "second root element"); root=true;}
				if (!name( a)) return false; out.push_back( Tok( 'o', a)); U tag=a;
				for (;;)
				{
					size_t k=i; ws(); if (lit( "/>")) {out.push_back( Tok( 'c', tag)); break;} if (lit( ">")) {stack.push_back( tag); break;}
					if (k==i) return fail( "space or end of tag expected");
					if (!name( b)) return false; ws(); if (!lit( "=")) return fail( "'=' expected"); ws(); if (!attval( v)) return false; out.push_back( Tok( 'a', b, v));
				}
				continue;
			}
		}
		return true;
	}
};

struct Sim
{
	enum St {Init,Content,Att,Tag};
	Rng& r; int out,page,app; bool sub; int buf; prn::P* p; St st; Toks toks; std::vector<U> stack; bool root,text; std::string trace; bool doct;
	std::string lasterr; unsigned maxtext; bool badcalls, big; uint64_t nok,nbad;
	Sim( Rng& r_, int o, int pg, int a, bool s, int b) :r(r_),out(o),page(pg),app(a),sub(s),buf(b),p(prn::make( o, pg, a, s, b)),st(s?Content:Init),root(false),text(false),doct(false),maxtext(12),badcalls(true),big(false),nok(0),nbad(0) {}
	~Sim() {delete p;}
	bool both( char32_t c) {return enc::rep( app, c)&&enc::rep( out, c, page);}
	U name()
	{
		static const std::u32string f=U"abcdeXYZ_", n=U"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_:"; U u;
		unsigned l=r.chance(1,50)?50+r.below(r.chance(1,10)?20000:400):1+r.below(10);
		if (big && r.chance(1,12)) {static const unsigned b[]={250,16380,32760,65530,65535,131066}; l=b[ r.below(6)]+r.below(12); vf::maxv( "characters of a name", l);}
		for (unsigned k=0;k<l;++k) {if (r.chance(1,8)) {char32_t c=r.chance(1,2)?0xC0+r.below(0x400):0x3040+r.below(0x20000); if (!(c>=0xD800&&c<=0xDFFF)&&both( c)&&c>=0xA0) {u+=c; continue;}} u+=k?r.pickc(n):r.pickc(f);}
		return u;
	}
	U txt()
	{
		U u; unsigned l=r.chance(1,8)?0:r.below( maxtext+1);
		if (big && r.chance(1,12)) {static const unsigned b[]={250,16380,32760,65530,65535,131066}; l=b[ r.below(6)]+r.below(12); vf::maxv( "characters of a text", l);}
		for (unsigned k=0;k<l;++k)
		{
			char32_t c;
			switch (r.below(8))
			{
				case 0: {static const char32_t s[]={'<','>','&','\'','"',']','-','!','?','=','/',';','#'}; c=s[r.below(13)]; break;}
				case 1: {static const char32_t s[]={'\r','\n','\t',' ',8,'\r','\n',1,5,11,12,27,31,127}; c=s[r.below(14)]; break;}
				case 2: c=0x80+r.below(0x80); break;
				case 3: c=0x100+r.below(0x2000); break;
				case 4: c=0x10000+r.below(0x100000); break;
				case 5: {static const char32_t* s[]={U"]]>",U"&amp;",U"&#13;",U"\r\n",U"<!--",U"&lt",U"<![CDATA[",U"</a>",U"?>",U"&#x"}; u+=s[r.below(10)]; continue;}
				case 6: {static const char32_t s[]={0x7F,0x80,0x85,0xFF,0x100,0x7FF,0x800,0x2028,0xD7FF,0xE000,0xFFFD,0xFFFE,0xFFFF,0x10000,0x10FFFF,0x3C00,0x2600,0x263C,0x0D00,0x10D,0x13C,0x10026}; c=s[r.below(22)]; break;}
				default: c='a'+r.below(26);
			}
			if (!enc::rep( app, c)||(c>=0xD800&&c<=0xDFFF)) c='z';
			u+=c;
		}
		return u;
	}
	std::string ascii( bool id)
	{
		static const std::string a="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", b="/:.-+ %?=_"; std::string s; unsigned l=1+r.below(r.chance(1,20)?300:12);
		for (unsigned k=0;k<l;++k) s+=(id&&r.chance(1,4))?b[r.below(b.size())]:a[r.below(a.size())]; return s;
	}
	// one call; expected result by the model
	void state( St e, const std::string& what) {if (p->state()!=(int)e) {static const char* n[]={"before the header","content","attribute without value","in an open tag"}; int g=p->state(); vf::fail( "state "+std::string(g<0||g>3?"unknown":n[g])+" instead of '"+n[e]+"' after "+what+"\ncalls: "+vf::show( trace.substr( trace.size()>1500?trace.size()-1500:0),1600));} vf::count( "states compared");}
	void expect( bool ok, bool got, const std::string& before, const std::string& what, St next)
	{
		trace+=what+(got?" ":"! ");
		if (ok!=got) vf::fail( what+(got?" succeeded but does not fit":" failed but fits the state")+" (lasterror: "+(p->err()?p->err():"none")+")\ncalls: "+vf::show( trace.substr( trace.size()>1500?trace.size()-1500:0),1600));
		if (!got && p->out()!=before) vf::fail( what+" failed but wrote '"+vf::show( p->out().substr( std::min( before.size(), p->out().size())))+"'\ncalls: "+vf::show( trace,1600));
		if (!ok) {const char* m=p->err(); if (!m||!*m) vf::fail( what+" is refused without naming the reason as last error\ncalls: "+vf::show( trace.substr( trace.size()>1500?trace.size()-1500:0),1600)); lasterr=m;}
		else if (!lasterr.empty()) {const char* m=p->err(); if (m&&lasterr!=m) vf::fail( what+" succeeded and changed the last error from '"+lasterr+"' to '"+m+"'");}
		state( ok?next:st, what); if (ok) ++nok; else ++nbad;
	}
	std::string E( const U& u) {return enc::enc( u, app);}
	bool snap() {return badcalls&&p->out().size()<20000;}
	void header() {bool ok=st==Init; std::string b=before(ok); std::string e=r.chance(1,5)?"":ascii(false); static const char* sa[]={0,"yes","no"}; int k=r.below(3); expect( ok, p->header( e.empty()?0:e.c_str(), sa[k]), b, "header", Content); if (ok) {toks.push_back( Tok( 'h', e.empty()?U"UTF-8":enc::asc(e), sa[k]?enc::asc(sa[k]):U())); st=Content;}}
	std::string before( bool ok) {return ok?std::string():p->out();}
	void doctype()
	{
		if (root||text||doct) {if (stack.empty()) return;} // (a second document type or one after content is not judged)
		if (enc::unit( app)>1 && st==Content && stack.empty()) return; // the identifiers are C strings: only for byte oriented application character sets
		std::string rt=ascii(false); rt[0]='r'; std::string pu=ascii(true), sy=ascii(true); bool hp=r.chance(1,2), hs=r.chance(1,2);
		if (r.chance(1,12)) {std::string b=p->out(); if (!p->doctype( 0, hp?pu.c_str():0, hs?sy.c_str():0)&&st==Content) vf::fail( "doctype without root element failed"); if (p->out()!=b) vf::fail( "doctype without root element wrote something"); trace+="doctype0 "; state( st, "doctype without root element"); return;}
		bool ok=st==Content&&stack.empty()&&!(hp&&!hs); std::string b=before(ok);
		expect( ok, p->doctype( zt(rt).c_str(), hp?zt(pu).c_str():0, hs?zt(sy).c_str():0), b, "doctype", st); if (ok) {toks.push_back( Tok( 'd', enc::asc(rt), hp?enc::asc(pu):U(), hs?enc::asc(sy):U())); doct=true;}
	}
	const std::string& zt( const std::string& s) {return s;}
	void open() {bool ok=st==Content||st==Tag; U n=name(); std::string b=before(ok); expect( ok, p->open( E(n)), b, "open", Tag); if (ok) {toks.push_back( Tok( 'o', n)); stack.push_back( n); st=Tag; root=true;}}
	void attr() {bool ok=st==Tag; U n=name(); std::string b=before(ok); expect( ok, p->attr( E(n)), b, "attr", Att); if (ok) {toks.push_back( Tok( 'a', n)); st=Att;}}
	void value() {bool ok=st!=Init; U v=txt(); std::string b=before(ok); expect( ok, p->value( E(v)), b, st==Att?"attvalue":"value", st==Att?Tag:Content); if (ok) {if (st==Att) {toks.back().b=v; st=Tag;} else {toks.push_back( Tok( 't', v, U(), U(), stack.empty())); st=Content; if (!v.empty()) text=true;}}}
	void close() {bool ok=!stack.empty()&&st!=Att; std::string b=before(ok); expect( ok, p->close(), b, "close", Content); if (ok) {toks.push_back( Tok( 'c', stack.back())); stack.pop_back(); st=Content;}}
	void exitctx() {bool ok=st!=Init&&st!=Att; std::string b=before(ok); expect( ok, p->exitctx(), b, "exit", Content); if (ok) st=Content;}
	void step()
	{
		bool done=!sub&&root&&stack.empty();	// nothing fits behind the root element
		switch (r.below(16))
		{
			case 0: if (badcalls||st==Init) header(); break;
			case 1: if (badcalls||(st==Content&&stack.empty()&&!root)) doctype(); break;
			case 2: case 3: case 4: if (!done&&(badcalls||st==Content||st==Tag)) open(); break;
			case 5: case 6: case 7: if (badcalls||st==Tag) attr(); if (st==Att&&r.chance(7,8)) value(); break;
			case 8: case 9: case 10: if (st==Init?badcalls:((sub||!stack.empty())||st==Att)) value(); break;
			case 11: case 12: case 13: if (badcalls||(!stack.empty()&&st!=Att)) close(); break;
			case 14: exitctx(); break;
			default: if (st==Att) value(); else if (st==Init) header();
		}
	}
	void finish()
	{
		if (st==Init) header();
		if (st==Att) value();
		if (!sub&&!root) {open();}
		while (!stack.empty()) close();
	}
	void verify()
	{
		std::string o=p->out(); U u;
		if (!enc::dec( o, out, u, page)) vf::fail( std::string("the output is not valid ")+enc::name(out)+": "+vf::show(o,1500));
		Reader rd( u); if (!rd.run( sub)) vf::fail( "the output is not well-formed: "+rd.err+": "+vf::show( enc::u8(u),2000));
		if (!rd.stack.empty()) vf::fail( "the output is not balanced: "+vf::show( enc::u8(u),2000));
		Toks a=norm( toks), b=norm( rd.out); check( a, b, "XML reader", u);
		// the scanner reads it back
		if (!u.empty()&&u[0]=='<')
		{
			scan::Req q( out); q.inPage=page; scan::Res x=scan::run( q, o); Toks k; std::vector<U> sk;
			for (auto& e:x.ev)
			{
				U v; enc::dec( e.val, enc::UTF8, v);
				switch (e.type)
				{
					case doc::OpenTag: k.push_back( Tok( 'o', v)); sk.push_back( v); break;
					case doc::TagAttribName: k.push_back( Tok( 'a', v)); break;
					case doc::TagAttribValue: if (k.empty()||k.back().t!='a') vf::fail( "value without attribute read back"); k.back().b=v; break;
					case doc::CloseTag: k.push_back( Tok( 'c', v)); if (!sk.empty()) sk.pop_back(); break;
					case doc::CloseTagIm: k.push_back( Tok( 'c', sk.empty()?U():sk.back())); if (!sk.empty()) sk.pop_back(); break;
					case doc::Content: k.push_back( Tok( 't', v, U(), U(), sk.empty())); break;
					case doc::HeaderStart: k.push_back( Tok('h')); break;
					case doc::HeaderAttribName: last=v; break;
					case doc::HeaderAttribValue: if (last==U"encoding") k.back().a=v; else if (last==U"standalone") k.back().b=v; break;
					case doc::DocAttribValue: if (k.empty()||k.back().t!='D') k.push_back( Tok('D')); da.push_back( v); break;
					case doc::DocAttribEnd: {Tok d('d'); if (da.size()>=2) d.a=da[1]; if (da.size()==4) d.c=da[3]; if (da.size()==5) {d.b=da[3]; d.c=da[4];} k.back()=d; da.clear(); break;}
					case doc::ErrorOccurred: vf::fail( "reading back fails: "+scan::show( x, x.ev.size()<4?0:x.ev.size()-4)+"\noutput: "+vf::show( enc::u8(u),2000));
				}
			}
			check( a, norm(k), "XML scanner", u);
			vf::count( "outputs read with the scanner");
		}
		vf::count( "outputs read"); vf::count( "tree items compared", a.size()); vf::count( "output bytes", o.size());
	}
	U last; std::vector<U> da;
	void check( const Toks& a, const Toks& b, const char* what, const U& u)
	{
		size_t n=std::min( a.size(), b.size()); for (size_t k=0;k<=n;++k)
			if (k==n? a.size()!=b.size() : !(a[k]==b[k])) vf::fail( std::string("read back by the ")+what+" item "+vf::num(k)+" differs\nprinted: "+show( a, k<2?0:k-2)+"\nread:    "+show( b, k<2?0:k-2)+"\noutput: "+vf::show( enc::u8(u),2000));
	}
	void restart( bool s) {p->reset( s); lasterr.clear(); if (p->err()) vf::fail( std::string("last error after reset: ")+p->err()); sub=s; st=s?Content:Init; toks.clear(); stack.clear(); root=text=doct=false; trace+="reset "; state( st, "reset");}
	uint64_t hash() {uint64_t h=out*31+page*7+app*131+sub; for (auto& t:toks) {h=h*1099511628211ull^t.t; h^=vf::hash( t.a.data(), t.a.size()*4)^(vf::hash( t.b.data(), t.b.size()*4)<<1);} return h;}
};
}
