// C08: malformed documents are answered with the right error at the right place
#include "gendoc.hpp"
namespace vf {
const Check check={"C08",240000,5000000,"distinct malformed documents (truncated, mutated or with a planted defect) whose correct answer is an error",0,30};
struct Defect { const char* text; int err; int events; const char* expect; };
// defects placed in the content of an element, with the elements expected before the error (written by hand from the documentation)
static const Defect defects[] = {
	{"<b c>",doc::ErrExpectedEqual,1,"O:b"},
	{"<b c d='1'>",doc::ErrExpectedEqual,2,"O:b,N:c"},
	{"<b c='1'd='2'>",doc::ErrExpectedTagAttribute,3,"O:b,N:c,V:1"},
	{"<b c='1>",doc::ErrStringNotTerminated,2,"O:b,N:c"},
	{"<b c=\"1<d/>\"/>",doc::ErrStringNotTerminated,2,"O:b,N:c"},
	{"<b c='x",doc::ErrStringNotTerminated,2,"O:b,N:c"},
	{"</b c>",doc::ErrExpectedTagEnd,1,"C:b"},
	{"</b",doc::ErrExpectedTagEnd,0,""},
	{"</b  ",doc::ErrExpectedTagEnd,1,"C:b"},
	{"</b/>",doc::ErrExpectedTagEnd,0,""},
	{"<b/x>",doc::ErrExpectedTagEnd,1,"O:b"},
	{"<b/",doc::ErrExpectedTagEnd,1,"O:b"},
	{"<b",doc::ErrExpectedTagAttribute,0,""},
	{"<b\"c\">",doc::ErrExpectedTagAttribute,0,""},
	{"<b=c>",doc::ErrExpectedTagAttribute,0,""},
	{"<b <c/>",doc::ErrExpectedEqual,1,"O:b"},
	{"<b c=d<e>",doc::ErrExpectedTagAttribute,2,"O:b,N:c"},
	{"<!- x -->",doc::ErrExpectedDash2,0,""},
	{"<!-x-->",doc::ErrExpectedDash2,0,""},
	{"<!-- x --",doc::ErrUnexpectedEndOfText,0,""},
	{"<!-- x ->",doc::ErrUnexpectedEndOfText,0,""},
	{"<!--",doc::ErrUnexpectedEndOfText,0,""},
	{"<? x ",doc::ErrUnexpectedEndOfText,0,""},
	{"<?x?",doc::ErrUnexpectedEndOfText,0,""},
	{"<![CDATA[ x ]]",doc::ErrUnexpectedEndOfText,0,""},
	{"<![CDATA[ x ]>",doc::ErrUnexpectedEndOfText,0,""},
	{"<![CDATA x]]>",doc::ErrExpectedCDATATag,0,""},
	{"<![CDAT[x]]>",doc::ErrSyntaxToken,0,""},
	{"<![cdata[x]]>",doc::ErrSyntaxToken,0,""},
	{"<![CDA",doc::ErrUnexpectedEndOfText,0,""},
	{"<![",doc::ErrUnexpectedEndOfText,0,""},
	{"<!X [ a",doc::ErrUnexpectedEndOfText,1,"D:X"},
	{"<!X 'a",doc::ErrStringNotTerminated,1,"D:X"},
	{"<!X a",doc::ErrIllegalDocumentAttributeDef,1,"D:X"},
	{"<!X a'b'>",doc::ErrIllegalDocumentAttributeDef,1,"D:X"},
	{"x &nosuch; y",doc::ErrUndefinedCharacterEntity,0,""},
	{"<b c='&nosuch;'/>",doc::ErrUndefinedCharacterEntity,2,"O:b,N:c"},
};
// defects at the start of the document
static const Defect starts[] = {
	{"x<a/>",doc::ErrExpectedOpenTag,0,""},
	{" \n&lt;<a/>",doc::ErrExpectedOpenTag,0,""},
	{"<?xmlx?><a/>",doc::ErrExpectedXMLTag,0,""},
	{"<?xml",doc::ErrExpectedXMLTag,0,""},
	{"<?xm",doc::ErrUnexpectedEndOfText,0,""},
	{"<?Xml ?>",doc::ErrSyntaxToken,0,""},
	{"<?xml version?>",doc::ErrExpectedEqual,1,"H:?xml"},
	{"<?xml version='1.0'encoding='x'?>",doc::ErrExpectedTagAttribute,3,"H:?xml,h:version,v:1.0"},
	{"<?xml version='1.0'>",doc::ErrExpectedTagAttribute,3,"H:?xml,h:version,v:1.0"},
	{"<?xml version='1.0' ?<a/>",doc::ErrExpectedTagEnd,3,"H:?xml,h:version,v:1.0"},
	{"<?xml version='1.0",doc::ErrStringNotTerminated,2,"H:?xml,h:version"},
	{"<!DOCTYPE",doc::ErrIllegalDocumentAttributeDef,0,""},
	{"<!DOCTYPE a SYSTEM \"b",doc::ErrStringNotTerminated,3,"D:DOCTYPE,D:a,D:SYSTEM"},
	{"<!DOCTYPE a [ <!ELEMENT b ",doc::ErrUnexpectedEndOfText,2,"D:DOCTYPE,D:a"},
	{"<",doc::ErrExpectedTagAttribute,0,""},
};
static void expect( const char* s, doc::Evs& ev)
{
	std::string e=s; size_t i=0;
	while (i<e.size())
	{
		size_t k=e.find( ',', i); if (k==std::string::npos) k=e.size(); std::string x=e.substr( i, k-i); i=k+1;
		int t=0; switch (x[0]) {case 'O': t=doc::OpenTag; break; case 'N': t=doc::TagAttribName; break; case 'V': t=doc::TagAttribValue; break; case 'C': t=doc::CloseTag; break; case 'D': t=doc::DocAttribValue; break; case 'H': t=doc::HeaderStart; break; case 'h': t=doc::HeaderAttribName; break; case 'v': t=doc::HeaderAttribValue; break;}
		ev.push_back( doc::Ev( t, enc::asc( x.substr(2)), 0, 0));
	}
}
void init() { modes::detect( false); }
static void judge( gd::Case& c, const doc::Evs& ev, Rng& r, const char* kind)
{
	scan::Req q; q.in=c.in; q.inPage=c.page; q.out=c.out; q.ents=c.opt.ents;
	if (r.chance(1,4)) {q.useIterator=true;}
	else if (r.chance(1,4)) {q.src=scan::PUTINPUT; size_t i=0; for (;;) {i+=1+r.below(20); if (i>=c.bytes.size()||q.cuts.size()>1000) break; q.cuts.push_back(i);}}
	note( gd::describe( c)+"\n"+kind);
	scan::Res x=scan::run( q, c.bytes);
	std::string d=scan::compare( x, ev, q.out);
	if (!d.empty()) fail( std::string(kind)+": "+d);
	if (ev.back().type==doc::ErrorOccurred)
	{
		if (x.ev.back().val.empty()) fail( "error without message");
		seen( "error codes", ev.back().err); seen( "error codes with element before", ev.back().err*16+(ev.size()>1?ev[ev.size()-2].type:0));
		count( std::string(kind)=="truncated"?"truncated documents with error":std::string(kind)=="mutated"?"mutated documents with error":"planted defects"); distinct( hash( c.bytes));
	}
	else count( "documents still well-formed for the scanner");
	count( "elements compared", x.ev.size());
}
void run( uint64_t idx, Rng& r)
{
	gd::Case c; gd::pickEnc( r, c);
	doc::Opt o; o.ents=r.chance(1,2)?&gd::ents():0; o.size=2+r.below(10); o.maxdepth=1+r.below(4); o.ctrl=r.chance(1,4); o.unquoted=r.chance(1,4);
	gd::generate( r, c, o);
	doc::Evs ref=doc::refscan( c.src, o.ents);
	bool agree=ref.size()==c.ev.size(); for (size_t i=0;agree&&i<ref.size();++i) agree=ref[i].type==c.ev[i].type && ref[i].val==c.ev[i].val;
	if (!agree) {count( "documents the reference models disagree about (not judged)"); return;}
	doc::U src=c.src;
	if (idx%3==0)
	{
		// truncations
		unsigned n=thorough()?30:8;
		for (unsigned k=0;k<n;++k)
		{
			size_t p=r.below( src.size()+1);
			if (!c.markup.empty() && r.chance(3,4)) {auto& m=r.pick( c.markup); if (m.second>m.first) p=m.first+1+r.below( m.second-m.first);}
			c.src=src.substr( 0, p); c.bytes=enc::enc( c.src, c.in, c.page);
			ref=doc::refscan( c.src, o.ents);
			for (auto& m:c.markup) if (p>m.first && p<m.second && ref.back().type!=doc::ErrorOccurred) {fprintf( stderr, "reference model wrong\n"); abort();}
			judge( c, ref, r, "truncated");
			// truncated inside of a character in markup: never the regular end
			if (c.in==enc::UTF8) // (in the fixed width character sets the rest of the unit reads as zero)
			{
				for (auto& m:c.markup) if (p>m.first && p<m.second)
				{
					std::string full=enc::enc( src.substr( 0, p+1), c.in, c.page); if (full.size()<=c.bytes.size()+1 || p+1>=m.second) continue;
					std::string b=full.substr( 0, c.bytes.size()+1+r.below( full.size()-c.bytes.size()-1));
					scan::Req q; q.in=c.in; q.inPage=c.page; q.ents=o.ents; scan::Res x=scan::run( q, b);
					if (x.limit || x.thrown || x.ev.back().type!=doc::ErrorOccurred) fail( "document truncated inside of a character in markup does not end with an error: "+scan::show( x, x.ev.size()<4?0:x.ev.size()-4));
					count( "documents truncated inside of a character");
				}
			}
		}
	}
	else if (idx%3==1)
	{
		gd::mutate( r, c.src, 1+r.below(3), c.opt.ok); c.bytes=enc::enc( c.src, c.in, c.page);
		ref=doc::refscan( c.src, o.ents);
		judge( c, ref, r, "mutated");
	}
	else if (r.chance(1,4))
	{
		const Defect& d=starts[ r.below( sizeof(starts)/sizeof(*starts))];
		c.src=enc::asc( d.text); if (r.chance(1,3)) c.src=U"\r\n "+c.src;
		c.bytes=enc::enc( c.src, c.in, c.page); doc::Evs ev; expect( d.expect, ev);
		ev.push_back( doc::Ev( doc::ErrorOccurred, U"", 0, 0)); ev.back().err=d.err;
		judge( c, ev, r, "defect at start");
	}
	else
	{
		// a planted defect behind a well-formed part
		const Defect& d=defects[ r.below( sizeof(defects)/sizeof(*defects))];
		doc::Opt o2=c.opt; doc::Gen g( r, o2); if (r.chance(1,2)) g.header();
		g.openTag( false); g.body( r.below(12)); g.flush();
		// the defect starts with markup or is text of its own
		bool text=d.text[0]!='<';
		if (text) {g.openTag( true);}
		c.src=g.src; c.ev=g.ev; c.src+=enc::asc( d.text); expect( d.expect, c.ev);
		c.ev.push_back( doc::Ev( doc::ErrorOccurred, U"", 0, 0)); c.ev.back().err=d.err;
		c.bytes=enc::enc( c.src, c.in, c.page);
		judge( c, c.ev, r, "planted defect");
	}
	seen( "input character sets and pages", c.in*16+c.page);
	if (idx<12 && c.bytes.size()<300) sample( gd::describe(c));
}
}
