------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* Pictures to VMU encodings.  A picture is [pal, frames]: pal lists its   *)
(* colours as <<r, g, b, a>> (0..255) and every frame is a sequence of     *)
(* rows of indices into pal.                                               *)
(***************************************************************************)
EXTENDS Util

Width(im)  == Len(im.frames[1][1])
Height(im) == Len(im.frames[1])

LE16(w) == <<w % 256, w \div 256>>

\* A channel scaled to 0..15, rounding to nearest, and the ARGB word.
Scale(c) == (2 * c + 17) \div 34
Argb(p) == Scale(p[4]) * 4096 + Scale(p[1]) * 256 + Scale(p[2]) * 16 + Scale(p[3])
Words(im) == [i \in 1..Len(im.pal) |-> Argb(im.pal[i])]

\* The distinct words of the given frames in order of first appearance.
PaletteOf(im, frames) ==
  LET W == Words(im)
      AddPixel(acc, px) == IF W[px] \in acc.s THEN acc
                           ELSE [s |-> acc.s \cup {W[px]}, q |-> Append(acc.q, W[px])]
      AddRow(acc, row) == FoldLeft(AddPixel, acc, row)
      AddFrame(acc, fr) == FoldLeft(AddRow, acc, fr)
  IN FoldLeft(AddFrame, [s |-> {}, q |-> <<>>], frames).q

IsSize(frames, w, h) == \A i \in 1..Len(frames) :
  Len(frames[i]) = h /\ \A r \in 1..h : Len(frames[i][r]) = w

PaletteBytes(pal, n) == FlattenSeq([i \in 1..n |-> IF i <= Len(pal) THEN LE16(pal[i]) ELSE <<0, 0>>])
\* Palette position (from 0) of every source colour in use.
IndexOf(im, pal) == LET W == Words(im) IN
  [i \in 1..Len(im.pal) |-> IF \E j \in 1..Len(pal) : pal[j] = W[i]
                            THEN (CHOOSE j \in 1..Len(pal) : pal[j] = W[i]) - 1 ELSE 0]

\* Two pixels per byte, the left one in the high half.
RowNibbles(ix, row) == [b \in 1..(Len(row) \div 2) |-> ix[row[2 * b - 1]] * 16 + ix[row[2 * b]]]
RowBytes(ix, row) == [b \in 1..Len(row) |-> ix[row[b]]]
RowWords(W, row) == FlattenSeq([b \in 1..Len(row) |-> LE16(W[row[b]])])
FrameData(frames, Row(_)) == FlattenSeq([f \in 1..Len(frames) |->
                               FlattenSeq([r \in 1..Len(frames[f]) |-> Row(frames[f][r])])])

\* Palette and pixels in the smallest mode that holds the colours.
Encoded(im, frames, pal) ==
  LET ix == IndexOf(im, pal)  W == Words(im)
      Nib(row) == RowNibbles(ix, row)
      Byt(row) == RowBytes(ix, row)
      Wrd(row) == RowWords(W, row)
  IN IF Len(pal) <= 16 THEN PaletteBytes(pal, 16) \o FrameData(frames, Nib)
     ELSE IF Len(pal) <= 256 THEN PaletteBytes(pal, 256) \o FrameData(frames, Byt)
     ELSE FrameData(frames, Wrd)
EyeType(pal) == IF Len(pal) <= 16 THEN 3 ELSE IF Len(pal) <= 256 THEN 2 ELSE 1

\* [ok, v]: the icon of picture im with an optional eyecatch (<<>> or <<pic>>).
Icon(im, speed, eye) ==
  LET pal == PaletteOf(im, im.frames)
      still == <<eye[1].frames[1]>>
      epal == PaletteOf(eye[1], still)
  IN IF Len(pal) > 16 \/ ~IsSize(im.frames, 32, 32) THEN [ok |-> FALSE, v |-> <<>>]
     ELSE IF eye # <<>> /\ ~IsSize(still, 72, 56) THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> TRUE,
           v |-> LE16(Len(im.frames)) \o LE16(speed)
                 \o LE16(IF eye = <<>> THEN 0 ELSE EyeType(epal))
                 \o Rep(0, 26)
                 \o Encoded(im, im.frames, pal)
                 \o (IF eye = <<>> THEN <<>> ELSE Encoded(eye[1], still, epal))]

\* One bit per pixel, most significant first, missing pixels as pad.
PackBits(bits, pad) ==
  [b \in 1..((Len(bits) + 7) \div 8) |->
     FoldLeft(LAMBDA a, j : 2 * a + (IF (b - 1) * 8 + j <= Len(bits) THEN bits[(b - 1) * 8 + j] ELSE pad),
              0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
\* Dark means a luminance below 127.5; see-through means alpha of at most 127.
Dark(p) == IF 30 * p[1] + 59 * p[2] + 11 * p[3] < 12750 THEN 1 ELSE 0
Clear(p) == IF p[4] <= 127 THEN 1 ELSE 0
SpriteFrame(im, fr, masked, header) ==
  LET dark == [i \in 1..Len(im.pal) |-> Dark(im.pal[i])]
      clear == [i \in 1..Len(im.pal) |-> Clear(im.pal[i])]
      Pix(row) == PackBits([x \in 1..Len(row) |-> dark[row[x]]], 0)
      Msk(row) == PackBits([x \in 1..Len(row) |-> clear[row[x]]], 1)
  IN (IF header THEN <<Len(fr[1]), Len(fr)>> ELSE <<>>)
     \o (IF masked THEN FrameData(<<fr>>, Msk) ELSE <<>>)
     \o FrameData(<<fr>>, Pix)
\* [ok, v]: with a header both sides must fit in a byte.
Sprite(im, masked, header) ==
  IF header /\ (Width(im) > 255 \/ Height(im) > 255) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE,
        v |-> FlattenSeq([f \in 1..Len(im.frames) |-> SpriteFrame(im, im.frames[f], masked, header)])]
=============================================================================
