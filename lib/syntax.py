"""Token sequences for the syntax check: sentences using every production of doc/grammar.md, and their edits."""
import parseref

# \n marks a line break; all other tokens are separated by blanks
SENTENCES = r'''
a = b \n c = a
a . b [ c ] . ? d = 1
a , _ , b [ 1 ] = c
a [ 1 : ] = b
a += 1 \n b >>>= 2
var a = 1 ; const b , _ = f ( )
var a , b = c \n a
a ( ) \n b ( 1 , c ... , d )
a ( x = 1 , y = b )
a . "b" ( 1 ) . in [ ? c ] . ? for
[ a , b ... , ] [ : ] \n a [ : b ] [ c : ]
( { a : 1 , "b" : { } , if : c , } )
x = a + b * - c / d - e % 1
x = a & b & c \n y = a << b \n z = a | b
x = a ^ ( b >> c ) ^ ~ d
x = a < b && c in d && e instanceof f
x = a || ! b == c || typeof d != e
x = a propertyof b ? c : d <= e ? f : g
x = a -> b -> c ( d ) ? 1 : 2
x = "p\( a + b )q\( c )r" + "s"
x = a => b + c \n y = ( ) => d
x = ( a , b = 1 , c ... ) => ( d , e ) => f
x = ( a = b ) => a ( ) \n y = ( a ... ) => a
x = ( a ) => { } \n y = ( a )
fun f { return }
fun f ( a ) { return a + 1 } f ( 2 )
fun f ( a , b = a , c ... ) { return ; } \n var x = fun ( ) { return this }
fun f { yield a \n yield async g ( ) \n x = yield b }
class a { }
class a extends b . c { constructor ( x ) { super ( x ) \n this . y = x } fun m { return super . m ( ) } var d = 1 }
x = class extends a { constructor { return this } fun if ( a ) { } } \n y = class { var a = 1 var b = 2 }
class a extends b { constructor { return } fun m { return 1 } }
do { 1 } do { } b
if a { 1 } else if ( c ) { 1 } else { 1 }
if a { } \n if b { } else { }
try { 1 } catch const x { 1 }
try { throw a } catch ( var x ) { throw x ; }
defer { 1 } \n b
with a { 1 }
with ( a , const b = c ( ) ) { 1 }
with const a = b , c { } \n with ( a ) { }
switch a { case 1 { 1 } case 2 , c : { fallthrough } default { break } }
switch ( a ) { default : { 1 } case 1 { ; } }
switch a { }
loop { break ; continue } \n loop { if a { break } }
repeat { 1 } while b \n c
repeat { continue } while b ; c
while a { break } while ( b ) { }
for const a in b { 1 }
for a , b in c { } for ( var _ , b in c ) { continue }
for x in a -> b { }
x = async f ( 1 ) \n y = async do { 1 } \n z = async a -> b
assert a == b \n assert ! c ;
public const a = 1 \n public fun f { } public class g { }
public var a = b ; ; ; c
import a \n import b . c \n import d . * \n import e : f , g \n import h / i . j ; x = 1
throw { a : __line__ }
delete a . b \n typeof - + ~ ! a
x = a \n . b \n . c
x = ( a \n + b \n - c ) [ \n 1 \n ] ( \n 2 \n )
x = a * \n b \n * c \n && d
x = a \n ? b \n : c
x = f ( a \n [ 1 ] , b \n ( 2 ) )
x = [ a \n ( 1 ) ] \n y = { a : b \n [ 1 ] }
return
do { return 1 }
x = y => z \n + 1
x = fun { 1 } ( ) \n y = fun { 1 } . b
x = { a : fun { } , b : class { } , c : x => x , }
x = a [ fun { return 1 } ( ) ] [ ? b ]
x = "" . size + r"x\y" . size
'''
NAMES = ["a", "_", "1", '"s"']
TOKENS = (NAMES + ['"p\\(', ')q\\(', ')r"'] + sorted(parseref.KEYWORDS - {"_"}) +
          ["(", ")", "[", "]", "{", "}", ",", ";", ":", "?", ".", "...", "->", "=>", "=", "+=", ">>>=", "+", "-", "*", "/", "%", "&",
           "|", "^", "~", "!", "<<", ">>>", "<", "==", "!=", ">=", "&&", "||"])


def sentences():
    return [s.split(" ") for s in SENTENCES.strip().split("\n")]


def toks(items):
    """["a", "\\n", ..] -> [(text, first on line)]"""
    r = []
    eol = True
    for x in items:
        if x == r"\n":
            eol = True
        else:
            r.append((x, eol))
            eol = False
    return r


def text(tokens):
    return "".join(("\n" if e else " ") + t for t, e in tokens)[1:]
