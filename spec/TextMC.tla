------------------------------- MODULE TextMC --------------------------------
(* C12, C13, C14 at small scale.  A text is typed character by character on a
   typewriter which fills cards; whatever has been typed, formatting the text
   gives the typewriter's cards.  Every file that begins with the pages, cut
   anywhere and announced with any count, is read as the reference says. *)
EXTENDS TextHeader, SegySmall, Scenario
CONSTANTS Alphabet, MaxText
SmallSlots == <<TS("a", 1, 1, 2), TS("b", 2, 2, 1), TS("c", 2, 4, 1)>>
SmallCards == <<<<67, 67, 67>>, <<45, 45, 45>>>>
VARIABLES text, rows, open, aftercr
vars == <<text, rows, open, aftercr>>
Init == text = <<>> /\ rows = <<>> /\ open = FALSE /\ aftercr = FALSE
Type(c) ==
  /\ text' = Append(text, c)
  /\ aftercr' = (c = CR)
  /\ IF c = LF /\ aftercr THEN UNCHANGED <<rows, open>>       \* the second half of a newline
     ELSE IF c \in {CR, LF} THEN rows' = (IF open THEN rows ELSE Append(rows, <<>>)) /\ open' = FALSE
     ELSE IF open /\ Len(rows[Len(rows)]) < LineWidth
          THEN rows' = [rows EXCEPT ![Len(rows)] = Append(@, c)] /\ open' = TRUE
          ELSE rows' = Append(rows, <<c>>) /\ open' = TRUE
Next == Len(text) < MaxText /\ \E c \in Alphabet : Type(c)
Stop == {TRUE, FALSE}
Pages(stop) == ExtFormat(text, stop)
Typewriter == Pages(FALSE) = Paginate(rows)
Shaped == \A stop \in Stop : PagesShaped(Pages(stop))
OnePageAtLeast == Pages(FALSE) = <<>> <=> text = <<>>
StopAppended == /\ IsStopPage(Pages(TRUE)[Len(Pages(TRUE))])
                /\ SubSeq(Pages(TRUE), 1, Len(Pages(FALSE))) = Pages(FALSE)
                /\ Len(Pages(TRUE)) = Len(Pages(FALSE)) + 1
(* reading back what was written, announced as n (or -1) pages, followed by some trace data *)
Encs == {"ascii", "cp037"}
Tail_ == <<65, 66, 67>>
Early(pages) == \E k \in 1..(Len(pages) - 1) : IsStopPage(pages[k])
ReadBack ==
  \A stop \in Stop, enc \in Encs :
    LET pages == Pages(stop)
        bytes == Zeros(ReelLen) \o PagesBytes(pages, enc)
        r == ExtPages(bytes \o Tail_, ReelLen, Len(pages), enc)
        v == ExtPages(bytes \o Tail_, ReelLen, -1, enc)
    IN /\ ~Early(pages) => r = [bad |-> "", pages |-> pages, pos |-> Len(bytes)]
       /\ Early(pages) => r.bad = "ext_early_stop"
       /\ stop /\ ~Early(pages) => v = [bad |-> "", pages |-> pages, pos |-> Len(bytes)]
       /\ Early(pages) => v.bad = "" /\ Len(v.pages) < Len(pages)
       /\ ExtPages(bytes \o Tail_, ReelLen, 0, enc).pos = ReelLen
(* a file cut inside its pages is refused, whatever it announced *)
CutRefused ==
  \A n \in {0, 1, CardLen * Cards - 1} :
    LET pages == Pages(TRUE)
        bytes == Zeros(ReelLen) \o PagesBytes(SubSeq(pages, 1, Len(pages) - 1), "ascii") \o SubSeq(PagesBytes(<<pages[Len(pages)]>>, "ascii"), 1, n)
    IN ~Early(pages) => ExtPages(bytes, ReelLen, Len(pages), "ascii").bad = "ext_short" /\ ExtPages(bytes, ReelLen, -1, "ascii").bad = "ext_short"
(* C12: a header of ordinary text is never taken for the other encoding; cards read back *)
Common(t) == CountIn(t, CommonChars)
AsLines == Considered(LinesOf(text))
Codec == \A enc \in Encs : LET b == TextBytes(AsLines, enc) IN
           /\ Len(b) = TextLen
           /\ TextReadableAt(b, 0, enc)
           /\ TextLinesAt(b, 0, enc) = [k \in 1..Cards |-> IF k <= Len(AsLines) THEN PadTo(AsLines[k], CardLen) ELSE Blanks(CardLen)]
           /\ 2 * Common(FlattenB(TextLinesAt(b, 0, enc))) >= TextLen => GuessEncoding(b) \in {enc, "none"}
(* C14: the rows as slot values *)
Value(k) == IF k <= Len(rows) THEN rows[k] ELSE <<>>
Values == [n \in SlotNames |-> CASE n = "a" -> Value(1) [] n = "b" -> Value(2) [] n = "c" -> Value(3)]
Cut(v, w) == IF Len(v) > w THEN SubSeq(v, 1, w) ELSE v
Template == LET h == StdFormat(Values)
                p == StdParse(h)
            IN /\ Len(h) = Cards /\ \A c \in 1..Cards : Len(h[c]) = CardLen
               /\ \A k \in 1..Len(CardSlots) : p[k] = Strip(Cut(Values[CardSlots[k].name], CardSlots[k].w))
               /\ \A c \in 1..Cards, col \in 1..CardLen :
                     (\A k \in SlotsOnCard(c) : ~(CardSlots[k].col <= col /\ col < CardSlots[k].col + CardSlots[k].w))
                       => h[c][col] = PadTo(CardTexts[c], CardLen)[col]
EmitText == Emit(text)
=============================================================================
