---------------------------- MODULE PointOutput -----------------------------
(* Chunked time series output.  Dates are 1..n; records are collected in a   *)
(* buffer and flushed to a file at the last model date of each chunk; chunks *)
(* are delimited by an arbitrary set of write instants (which need not be    *)
(* model dates).  The file may hold records of an earlier run ("stale").     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES n, W,      \* number of dates; write instants (on the doubled axis: date k is instant 2k)
          cur,       \* last processed date
          buffer,    \* records collected since the last flush
          file,      \* records in the file; stale records are negative
          flushed    \* number of flushes
pvars == <<n, W, cur, buffer, file, flushed>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the run's end is always a write instant
Instants == {w \in W : w >= 2 /\ w <= 2 * n} \cup {2 * n}
NextInstant(k) == MinOf({w \in Instants : w >= 2 * k})
\* is date k the last one of its chunk?
LastOfChunk(k) == k = n \/ 2 * (k + 1) > NextInstant(k)
FirstChunk(k) == ~\E w \in Instants : w < 2 * k

PInit(N, Wmax) == /\ n \in N /\ W \in SUBSET (2..Wmax)
                  /\ cur = 0 /\ buffer = <<>> /\ flushed = 0
                  /\ file \in {<<>>, <<-1, -2>>}
Record == /\ cur < n
          /\ cur' = cur + 1
          /\ IF LastOfChunk(cur + 1)
             THEN /\ file' = (IF FirstChunk(cur + 1) THEN <<>> ELSE file) \o Append(buffer, cur + 1)
                  /\ buffer' = <<>>
                  /\ flushed' = flushed + 1
             ELSE buffer' = Append(buffer, cur + 1) /\ UNCHANGED <<file, flushed>>
          /\ UNCHANGED <<n, W>>
PNext == Record

\* nothing lost, nothing twice, in order; stale records vanish with the first flush
Complete == flushed > 0 => file \o buffer = [i \in 1..cur |-> i]
NoStale == flushed > 0 => \A i \in DOMAIN file : file[i] > 0
AtEnd == cur = n => buffer = <<>> /\ file = [i \in 1..n |-> i]
\* a chunk never grows beyond the distance of the write instants
Durable == \A w \in Instants : w % 2 = 0 /\ w <= 2 * cur => w \div 2 <= Len(file)

\* ---- what the recorded output has to look like ---------------------------
\* cell of a point at (x, y) metres from the lower left corner
CellOf(x, y, res, rows, cols) == (rows - 1 - (y \div res)) * cols + (x \div res) + 1
SeriesOf(states, k, cell) == [i \in 1..Len(states) |-> states[i][k][cell]]
=============================================================================
