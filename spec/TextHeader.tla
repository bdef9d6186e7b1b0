----------------------------- MODULE TextHeader ------------------------------
(* Textual headers: cards, extended pages made from a text, and the template of
   the standard header.  Characters are code points; text is a sequence of them.
   (Cards, pages, CardOf, TextBytes, ExtPages, GuessEncoding: see SegyFormat.) *)
EXTENDS SegyFormat, StdTemplate

CONSTANTS CardSlots, CardTexts   \* the template: slots, and the cards around them

CR == 13
LF == 10
LineWidth == CardLen - 2
Blanks(n) == [k \in 1..n |-> Space]
PadTo(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o Blanks(n - Len(s))

--------------------------------------------------------------------------
(* The lines of a text: universal newlines; a newline at the very end starts no line. *)
EndsLine(t, k) == t[k] = LF \/ (t[k] = CR /\ ~(k < Len(t) /\ t[k + 1] = LF))
LinesOf(t) ==
  LET ends == TLCEval(SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : EndsLine(t, k)))
      n == Len(ends)
      start(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
      stop(k) == ends[k] - (IF t[ends[k]] = LF /\ ends[k] > 1 /\ ends[k] > start(k) /\ t[ends[k] - 1] = CR THEN 2 ELSE 1)
      closed == [k \in 1..n |-> SubSeq(t, start(k), stop(k))]
      rest == IF n = 0 THEN t ELSE SubSeq(t, ends[n] + 1, Len(t))
  IN TLCEval(IF rest = <<>> THEN closed ELSE Append(closed, rest))

PiecesOf(line) ==
  LET n == IF line = <<>> THEN 1 ELSE (Len(line) + LineWidth - 1) \div LineWidth
  IN [j \in 1..n |-> SubSeq(line, (j - 1) * LineWidth + 1, IF j * LineWidth < Len(line) THEN j * LineWidth ELSE Len(line))]
ExtCard(piece) == PadTo(piece, LineWidth) \o <<CR, LF>>
Paginate(rows) == \* rows of text to pages of cards
  LET n == (Len(rows) + Cards - 1) \div Cards
  IN TLCEval([p \in 1..n |-> TLCEval([c \in 1..Cards |-> LET k == (p - 1) * Cards + c IN ExtCard(IF k <= Len(rows) THEN rows[k] ELSE <<>>)])])
ExtFormat(text, stop) ==
  LET lines == LinesOf(text)
      rows == FlattenB([k \in 1..Len(lines) |-> PiecesOf(lines[k])])
  IN Paginate(rows) \o (IF stop THEN Paginate(<<StopStanza>>) ELSE <<>>)

(* Pages which a writer must refuse, and their bytes. *)
PagesShaped(pages) == \A k \in 1..Len(pages) : PageShaped(pages[k])
PagesEncodable(pages, enc) == \A k \in 1..Len(pages) : CanEncodeLines(pages[k], enc)
PagesBytes(pages, enc) == FlattenB([k \in 1..Len(pages) |-> TextBytes(pages[k], enc)])
(* Forty lines at most count; what is beyond them is not even looked at. *)
Considered(lines) == IF Len(lines) > Cards THEN SubSeq(lines, 1, Cards) ELSE lines

--------------------------------------------------------------------------
(* The standard header. *)
SlotsOnCard(c) == {k \in 1..Len(CardSlots) : CardSlots[k].card = c}
InSlot(k, col) == CardSlots[k].col <= col /\ col < CardSlots[k].col + CardSlots[k].w
(* for every column of every card, the slot it belongs to or 0 *)
SlotCover == TLCEval([c \in 1..Cards |-> LET ks == TLCEval(SlotsOnCard(c)) IN
                TLCEval([col \in 1..CardLen |-> IF \E k \in ks : InSlot(k, col) THEN CHOOSE k \in ks : InSlot(k, col) ELSE 0])])
BaseCards == TLCEval([c \in 1..Cards |-> PadTo(CardTexts[c], CardLen)])
StdFormat(value) == \* value: function from slot names to text
  LET text == TLCEval([k \in 1..Len(CardSlots) |-> TLCEval(PadTo(value[CardSlots[k].name], CardSlots[k].w))])
  IN TLCEval([c \in 1..Cards |-> TLCEval([col \in 1..CardLen |->
       LET k == SlotCover[c][col] IN IF k = 0 THEN BaseCards[c][col] ELSE text[k][col - CardSlots[k].col + 1]])])
RECURSIVE LeftStrip(_)
LeftStrip(s) == IF s # <<>> /\ s[1] = Space THEN LeftStrip(Tail(s)) ELSE s
RECURSIVE RightStrip(_)
RightStrip(s) == IF s # <<>> /\ s[Len(s)] = Space THEN RightStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RightStrip(LeftStrip(s))
StdParse(lines) == TLCEval([k \in 1..Len(CardSlots) |-> Strip(SubSeq(lines[CardSlots[k].card], CardSlots[k].col, CardSlots[k].col + CardSlots[k].w - 1))])
SlotNames == TLCEval({CardSlots[k].name : k \in 1..Len(CardSlots)})
=============================================================================
