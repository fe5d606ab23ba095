# internal/stringbuilder: a builder is abstracted by its content, a byte string.
func stringbuilder.New(buf) (r)
  fresh r
  ensures content(r) == str(buf)
func stringbuilder.NewString(s) (r)
  fresh r
  ensures content(r) == s
func stringbuilder.Builder.Len(b) (r)
  requires{C06} b != nil
  ensures r == len(content(b))
func stringbuilder.Builder.Bytes(b) (r)
  requires{C06} b != nil
  ensures str(r) == content(b)
func stringbuilder.Builder.String(b) (r)
  ensures b != nil ==> r == content(b)
func stringbuilder.Builder.Write(b, p) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == old(content(b)) ++ old(str(p))
  ensures err == nil
func stringbuilder.Builder.WriteString(b, s) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == old(content(b)) ++ s
  ensures err == nil
func stringbuilder.Builder.WriteByte(b, c) (err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == old(content(b)) ++ chr(c)
  ensures err == nil
func stringbuilder.Builder.WriteRune(b, r) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == old(content(b)) ++ utf8(r)
  ensures err == nil
func stringbuilder.Builder.Insert(b, i, p) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures 0 <= i && i <= len(old(content(b))) ==> content(b) == old(content(b))[:i] ++ old(str(p)) ++ old(content(b))[i:]
  ensures !(0 <= i && i <= len(old(content(b)))) ==> content(b) == old(content(b))
func stringbuilder.Builder.InsertString(b, i, s) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures 0 <= i && i <= len(old(content(b))) ==> content(b) == old(content(b))[:i] ++ s ++ old(content(b))[i:]
  ensures !(0 <= i && i <= len(old(content(b)))) ==> content(b) == old(content(b))
func stringbuilder.Builder.ByteAt(b, i) (r, err)
  requires{C06} b != nil
  ensures 0 <= i && i < len(content(b)) ==> r == content(b)[i] && err == nil
  ensures !(0 <= i && i < len(content(b))) ==> r == 0 && err != nil
func stringbuilder.Builder.Reset(b)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == ""
func stringbuilder.Builder.ResetWith(b, buf) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == old(str(buf))
  ensures err == nil
func stringbuilder.Builder.ResetWithString(b, s) (n, err)
  requires{C06} b != nil
  modifies content(b)
  ensures content(b) == s
  ensures err == nil
func stringbuilder.Builder.CharAt(b, i) (r)
  requires{C06} b != nil && 0 <= i && i < len(content(b))
  ensures r == content(b)[i]
func stringbuilder.Builder.SetLength(b, n)
  requires{C06} b != nil && 0 <= n
  modifies content(b)
  ensures n <= len(old(content(b))) ==> content(b) == old(content(b))[:n]
func stringbuilder.Builder.Delete(b, start, end)
  requires{C06} b != nil && 0 <= start && start <= end && end <= len(content(b))
  modifies content(b)
  ensures content(b) == old(content(b))[:start] ++ old(content(b))[end:]
func stringbuilder.Builder.Substring(b, start, end) (r)
  requires{C06} b != nil && 0 <= start && start <= end && end <= len(content(b))
  ensures r == content(b)[start:end]
func stringbuilder.Builder.LastIndexOf(b, s) (r)
  requires{C06} b != nil
  ensures -1 <= r && (r >= 0 ==> r + len(s) <= len(content(b)))
  ensures r >= 0 ==> content(b)[r:r+len(s)] == s
