// ---- cmd/aminoscan: C18 ----

extern "fmt.Printf" (format, args) (n, err)
extern "fmt.Print" (args) (n, err)
extern "fmt.Println" (args) (n, err)
extern "strings.Join" (elems, sep) (s)

// b from i on is a sequence of fields
def rest(b: Bytes, i: Int): Bytes = sub(b, i, blen(b) - i)
rec fields(b: Bytes, i: Int): Bool = i == blen(b) || 0 <= i && i < blen(b) && uvn(rest(b, i)) > 0 &&
  skipok(uvv(rest(b, i)) % 8, rest(b, i + uvn(rest(b, i)))) &&
  fields(b, i + uvn(rest(b, i)) + skipn(uvv(rest(b, i)) % 8, rest(b, i + uvn(rest(b, i)))))

func "aminoscan.slide" (bzPtr, n, k) (ok)
  inline
func "aminoscan.concat" (sPtr, t) (ok)
  inline
func "aminoscan.treat" (s, color) (r)
  props C18
func "aminoscan.treatAll" (color, args) (r)
  props C18
  loop 1
    decreases len(args) - $k
func "aminoscan.Red" (args) (r)
  props C18
func "aminoscan.Green" (args) (r)
  props C18
func "aminoscan.Yellow" (args) (r)
  props C18
func "aminoscan.Blue" (args) (r)
  props C18
func "aminoscan.Cyan" (args) (r)
  props C18
func "aminoscan.scanVarint" (bz, indent) (s, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> skipok(0, bytes(bz))
  ensures [C18:length] err == nil ==> n == skipn(0, bytes(bz))
func "aminoscan.scan8Byte" (bz, indent) (s, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> skipok(1, bytes(bz))
  ensures [C18:length] err == nil ==> n == skipn(1, bytes(bz))
func "aminoscan.scan4Byte" (bz, indent) (s, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> skipok(5, bytes(bz))
  ensures [C18:length] err == nil ==> n == skipn(5, bytes(bz))
func "aminoscan.scanByteLength" (bz, indent) (s, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> skipok(2, bytes(bz))
  ensures [C18:length] err == nil ==> n == skipn(2, bytes(bz))
func "aminoscan.scanAny" (typ, bz, indent) (s, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> skipok(typ, bytes(bz))
  ensures [C18:length] err == nil ==> n == skipn(typ, bytes(bz))
func "aminoscan.scanFieldKey" (bz, indent) (s, typ, n, err)
  props C18
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:accepts] err == nil <==> uvn(bytes(bz)) > 0
  ensures [C18:length] err == nil ==> n == uvn(bytes(bz)) && typ == uvv(bytes(bz)) % 8
func "aminoscan.scanStruct" (bz, indent, isRoot) (s, n, err)
  props C18
  let B = bytes(bz)
  loop 1
    invariant 0 <= n && n + len(bz) == blen(B)
    invariant bytes(bz) == rest(B, n)
    invariant fields(B, 0) <==> fields(B, n)
    invariant err == nil
    decreases len(bz)
  ensures [C18:bounds] 0 <= n && n <= len(bz)
  ensures [C18:complete] err == nil ==> n == len(bz)
  ensures [C18:accepts] isRoot ==> (err == nil <==> fields(B, 0))
extern "encoding/hex.DecodeString" (s) (bz, err)
func "aminoscan.hexDecode" (s) (bz)
  props C18
  maypanic
global len(os.Args) >= 1
// the bytes on the command line: the only panic is that of unparsable hex
func "aminoscan.main" ()
  props C18
  maypanic
  modifies *
  onpanic [C18:panics] panicked("aminoscan.hexDecode", 0)
extern "flag.NewFlagSet" (name, h) (f)
  ensures f != nil && isfresh(f)
extern "flag.(*FlagSet).BoolVar" (f, p, name, value, usage)
  modifies *
extern "flag.(*FlagSet).StringVar" (f, p, name, value, usage)
  modifies *
extern "flag.(*FlagSet).Parse" (f, args) (err)
  modifies *
extern "flag.(*FlagSet).Arg" (f, i) (s)
