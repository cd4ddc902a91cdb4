// Type erased access to the parser of path expressions and to automatons defined by calls
#pragma once
#include "vf.hpp"
#include "enc.hpp"
#include <vector>
#include <memory>
namespace pp {
typedef std::u32string U;
// a call of the automaton interface
struct Call
{
	enum Kind {Follow,Tag,Attr,If,Content,Close,Index,Range,From}; int kind; bool any; U name, value; std::vector<U> alt; int a, b;
	Call( int k=Follow) :kind(k),any(false),a(0),b(0) {}
};
struct Base
{
	virtual ~Base() {}
	virtual int add( int type, const std::string& text)=0;				// expression parser
	virtual void define( int type, const std::vector<Call>& calls)=0;		// calls
	virtual void start( bool parsed)=0;						// selector on the automaton of the parser or of the calls
	virtual void push( int type, const std::string& key, std::vector<int>& out)=0;
	virtual std::string dump()=0;
};
Base* make( int src, int atm);
}
