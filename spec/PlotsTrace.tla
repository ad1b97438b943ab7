----------------------------- MODULE PlotsTrace -----------------------------
(* Validates what recorded plots and animations show. *)
EXTENDS Plots, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, pos, bad
Titles(o, frames, off) == \A k \in DOMAIN o.shown : o.shown[k] = "timestep: " \o ToString(((k - 1 + off) % Len(frames)) + 1)
Lo(c, g) == IF c.vmin = <<>> THEN Min(Values(g)) ELSE c.vmin[1]
Hi(c, g) == IF c.vmax = <<>> THEN Max(Values(g)) ELSE c.vmax[1]
\* the colour scale: as given, else reaching to the least and the greatest of what is shown (g)
Scaled(c, clim, cmap, g) ==
  /\ cmap = (IF c.colormap = "" THEN "Greys" ELSE c.colormap)
  /\ clim = <<Lo(c, g), Hi(c, g)>>
Given(c, clim, cmap) ==
  /\ cmap = (IF c.colormap = "" THEN "Greys" ELSE c.colormap)
  /\ c.vmin # <<>> => clim[1] = c.vmin[1]
  /\ c.vmax # <<>> => clim[2] = c.vmax[1]
\* lines between the cells (positions doubled)
Cuts(cuts, n) == \A k \in 1..(n - 1) : 2 * k - 1 \in Range(cuts)
Between(cuts) == \A k \in DOMAIN cuts : cuts[k] % 2 = 1
\* an animation's pace, and the film made of it if one is asked for
Film(c, o, name) == /\ o.interval = c.film.interval
                    /\ IF c.film.save THEN Len(o.saved) = 1 /\ o.saved[1] = <<name, c.film.dpi>> ELSE o.saved = <<>>
Asked(c, k, default) == IF k \in DOMAIN c.asked THEN c.asked[k] ELSE default
LooksLike(c, d, t, color, size) ==
  /\ d.look[1] = Asked(c, "with_labels", "b:True")
  /\ d.look[2] = (IF "colours" \in DOMAIN c.asked THEN c.asked.colours[t] ELSE Asked(c, "node_color", color))
  /\ d.look[3] = Asked(c, "node_size", size)
  /\ d.look[4] = Asked(c, "with_arrows", "b:True")
Written(want, got) == want = "" \/ got = want
Axes(c) == IF c.twinx THEN 2 ELSE 1
Series(c, i) == <<c.x, c.y[i], IF c.label = <<>> THEN "" ELSE c.label[i], IF c.color = <<>> THEN "" ELSE c.color[IF Len(c.color) = 1 THEN 1 ELSE i]>>
\* the last series drawn on an axis settles what is written at it
LastOn(c, a) == Last(OnAxis(Len(c.y), Axes(c), a))
DrawnGraph(d, nodes, es) == NoDup(d.nodes) /\ Range(d.nodes) = Range(nodes) /\ d.directed /\ d.placed /\ Bag(d.edges) = Bag(es)
PlacedAt(d, all) == \A k \in DOMAIN d.nodes : LET j == Pos(all, d.nodes[k]) - 1 IN d.pos[k] = <<3 * j, j * j>>
\* which of the drawn centres is the k-th expected one
Places(drawn, want) == [k \in DOMAIN want |-> CHOOSE i \in DOMAIN drawn : drawn[i] = want[k]]
HexCentres(rows, L) == [k \in DOMAIN L |-> HexCentre(rows, L[k][1], L[k][2])]
Centres(hs) == [k \in DOMAIN hs |-> <<hs[k][1], hs[k][2]>>]
Annotated(c) == Flat([i \in DOMAIN c.node_annotations |-> [j \in DOMAIN c.node_annotations[i] |-> <<j - 1, i - 1, c.node_annotations[i][j]>>]])
Judge(e) ==
  LET c == e.c o == e.o IN
  IF e.out # "ok" THEN {"C30.failed." \o e.e}
  ELSE CASE e.e \in {"grid", "activities"} ->
         LET R == Table(c) IN
         Cl("C30.grid", o.n = 1 /\ o.img = Image(R, c.shape, SliceOf(c))) \cup
         Cl("C30.grid_title", o.title = c.title) \cup
         Cl("C30.grid_annotations", o.texts = Annotated(c)) \cup
         Cl("C30.grid_range", Scaled(c, o.clim, o.cmap, Image(R, c.shape, SliceOf(c)))) \cup
         Cl("C30.grid_lines", c.show_grid => LET g == Image(R, c.shape, SliceOf(c)) IN Cuts(o.cuts[1], Len(g[1])) /\ Cuts(o.cuts[2], Len(g)) /\ Between(o.cuts[1]) /\ Between(o.cuts[2]))
    [] e.e = "multiple" ->
         Cl("C30.multiple", o.n = Len(c.tables) /\ o.imgs = [k \in DOMAIN c.tables |-> Image(c.tables[k], c.shape, SliceOf(c))]) \cup
         Cl("C30.multiple_range", \A k \in DOMAIN c.tables : Scaled(c, o.clims[k], o.cmaps[k], Image(c.tables[k], c.shape, SliceOf(c)))) \cup
         Cl("C30.multiple_titles", c.titles = <<>> \/ o.shown = c.titles)
    [] e.e = "animate" ->
         LET F == TLCEval(Frames(c)) IN
         Cl("C30.animation_first", o.first \in Range(F)) \cup
         Cl("C30.animation_frames", Len(o.frames) >= Len(F) /\ Cycles(o.frames, F)) \cup
         Cl("C30.animation_range", Given(c, o.clim, o.cmap)) \cup
         Cl("C30.animation_film", Film(c, o, "evolved.gif")) \cup
         Cl("C30.animation_lines", c.show_grid => LET f == F[1] IN Cuts(o.cuts[1], Len(f[1])) /\ Cuts(o.cuts[2], Len(f)) /\ Between(o.cuts[1]) /\ Between(o.cuts[2])) \cup
         Cl("C30.animation_title", IF c.with_timestep THEN \E off \in 0..(Len(F) - 1) : CycleFrom(o.frames, F, off) /\ Titles(o, F, off)
                                   ELSE \A k \in DOMAIN o.shown : o.shown[k] = c.title)
    [] e.e = "animate1d" ->
         LET R == TLCEval([t \in DOMAIN c.rows |-> <<c.x, Table(c)[t]>>]) IN
         Cl("C30.series_film", Film(c, o, "plot.gif")) \cup
         Cl("C30.series_animation", o.first = R[1] /\ o.frames = R)
    [] e.e = "plot1d" ->
         LET n == Axes(c) IN
         Cl("C30.series", Len(o.axes) = n /\ \A a \in 1..n : o.axes[a] = [k \in DOMAIN OnAxis(Len(c.y), n, a) |-> Series(c, OnAxis(Len(c.y), n, a)[k])]) \cup
         Cl("C30.limits", /\ \A a \in 1..n : c.xlim # <<>> => o.xl[a] = c.xlim
                          /\ \A a \in 1..n : c.ylim # <<>> => o.yl[a] = c.ylim[IF Len(c.ylim) = 1 THEN 1 ELSE a]) \cup
         Cl("C30.axis_labels", /\ c.xlabel # "" => \A a \in 1..n : o.labels[a][1] = c.xlabel
                               /\ c.ylabel # <<>> => \A a \in 1..n : o.labels[a][2] = (IF Len(c.ylabel) = 1 THEN c.ylabel[1] ELSE c.ylabel[((LastOn(c, a) - 1) % 2) + 1])) \cup
         Cl("C30.series_title", c.title = "" \/ c.title \in Range(o.title)) \cup
         Cl("C30.series_layout", IF c.tight = <<>> THEN o.tight = <<>> ELSE \E t \in Range(o.tight) : \A k \in DOMAIN c.tight : k \in DOMAIN t /\ t[k] = c.tight[k]) \cup
         Cl("C30.legend_entries", c.legend # <<>> => \A a \in 1..n : o.entries[a] = [k \in DOMAIN OnAxis(Len(c.y), n, a) |-> c.label[OnAxis(Len(c.y), n, a)[k]]]) \cup
         Cl("C30.legend", \A a \in 1..n : c.legend # <<>> => o.legends[a] = c.legend[IF Len(c.legend) = 1 THEN 1 ELSE a])
    [] e.e = "poincare" ->
         Cl("C30.return_text", Written(c.xlabel, o.text[1]) /\ Written(c.ylabel, o.text[2]) /\ Written(c.title, o.text[3])) \cup
         Cl("C30.return_limits", (c.xlim # <<>> => o.xl = c.xlim) /\ (c.ylim # <<>> => o.yl = c.ylim)) \cup
         Cl("C30.returns", Len(o.pts) = Len(c.series) /\ \A k \in DOMAIN c.series : Bag(o.pts[k]) = Bag(Returns(c.series[k], c.last)))
    [] e.e = "bifurcation" ->
         LET P == TLCEval(Flat(o.pts)) B == TLCEval([k \in DOMAIN c.series |-> Branches(c.x[k], c.series[k], c.last)]) IN
         Cl("C30.branch_text", Written(c.xlabel, o.text[1]) /\ Written(c.ylabel, o.text[2]) /\ Written(c.title, o.text[3])) \cup
         Cl("C30.branches", Range(P) = UNION Range(B)) \cup
         Cl("C30.branches_once", \A p \in Range(P) : Count(P, p) = Cardinality({k \in DOMAIN B : p \in B[k]}))
    [] e.e = "degrees" ->
         LET B == Bars(c.nodes, c.edges, c.which) IN
         Cl("C30.degrees", NoDup(o.bars) /\ {b \in Range(o.bars) : b[2] # 0} = {b \in Range(B) : b[2] # 0}) \cup
         Cl("C30.degree_text", /\ Written(c.xlabel, o.text[1]) /\ Written(c.ylabel_freq, o.text[2])
                               /\ c.eq => (Written(c.ylabel_prob, o.text[3]) /\ o.text[4] = c.equation_text)
                               /\ Written(c.title, o.text[5])) \cup
         Cl("C30.degree_equation", c.eq => o.curve = [k \in DOMAIN B |-> <<B[k][1], 3 * B[k][1] + 1>>])
    [] e.e = "hex" ->
         LET g == TLCEval(Image(Table(c), c.shape, SliceOf(c))) L == TLCEval(Cellsof(g)) lo == Lo(c, g) hi == Hi(c, g) IN
         IF Len(o.hexes) # Len(L) \/ Bag(Centres(o.hexes)) # Bag(HexCentres(Len(g), L)) THEN {"C30.hexagons"} ELSE
         LET p == TLCEval(Places(Centres(o.hexes), HexCentres(Len(g), L))) IN
         Cl("C30.hexagons", o.verts = Corners /\ o.down) \cup
         Cl("C30.hexagon_title", o.title = c.title /\ (c.edge # "" => Range(o.edge) = {c.edge})) \cup
         Cl("C30.hexagon_colours", \A k \in DOMAIN L : Abs(o.hexes[p[k]][3] - Shade(L[k][3], lo, hi)) <= 1)
    [] e.e = "animate_hex" ->
         LET F == TLCEval([t \in DOMAIN c.rows |-> ByLabel(c.labels, c.rows[t])]) L == Cellsof(Fold(c.shape, F[1])) IN
         IF Bag(o.centres) # Bag(HexCentres(c.shape[1], L)) THEN {"C30.hexagons"} ELSE
         LET p == TLCEval(Places(o.centres, HexCentres(c.shape[1], L))) IN
         Cl("C30.hexagons", o.verts = Corners /\ o.down) \cup
         Cl("C30.hexagon_title", o.title = c.title /\ (c.edge # "" => Range(o.edge) = {c.edge})) \cup
         Cl("C30.hexagon_film", Film(c, o, "evolved.gif")) \cup
         Cl("C30.hexagon_frames", Len(o.frames) >= Len(F) /\ Cycles([t \in DOMAIN o.frames |-> [k \in DOMAIN p |-> o.frames[t][p[k]]]], F)) \cup
         Cl("C30.hexagon_frame_colours", (c.vmin # <<>> /\ c.vmax # <<>>) =>
              /\ Len(o.shades) = Len(o.frames)
              /\ \A t \in DOMAIN o.frames : Len(o.shades[t]) = Len(o.frames[t]) /\ \A k \in DOMAIN o.frames[t] : Abs(o.shades[t][k] - Shade(o.frames[t][k], c.vmin[1], c.vmax[1])) <= 1)
    [] e.e = "network" ->
         Cl("C30.network", Len(o.drawn) = 1 /\ DrawnGraph(o.drawn[1], c.nodes, c.edges)) \cup
         Cl("C30.network_look", LooksLike(c, o.drawn[1], 1, "s:#1f78b4", "i:300")) \cup
         Cl("C30.network_layout", /\ c.layout = "pos" => PlacedAt(o.drawn[1], c.nodes)
                                  /\ c.layout = "shell" => "shell" \in Range(o.drawn[1].as))
    [] e.e = "animate_network" ->
         Cl("C30.network_frames", Len(o.drawn) = Len(c.states) /\ \A k \in DOMAIN o.drawn : DrawnGraph(o.drawn[k], c.states[k].nodes, c.states[k].edges)) \cup
         Cl("C30.network_film", Film(c, o, "evolved.gif")) \cup
         Cl("C30.network_frame_title", \A k \in DOMAIN o.shown : o.shown[k] = (IF c.with_timestep THEN "timestep: " \o ToString(k) ELSE "")) \cup
         Cl("C30.network_frame_look", \A k \in DOMAIN o.drawn : LooksLike(c, o.drawn[k], k, "s:b", "i:30")) \cup
         Cl("C30.network_frame_layout", \A k \in DOMAIN o.drawn : (c.layout \in {"shell", "planar"} => c.layout \in Range(o.drawn[k].as)) /\ ((c.layout = "list" /\ k % 2 = 1) => "shell" \in Range(o.drawn[k].as))) \cup
         Cl("C30.network_frame_layout", \A k \in DOMAIN o.drawn : (c.layout = "pos" \/ (c.layout = "list" /\ k % 2 = 0)) => PlacedAt(o.drawn[k], c.all))
C == Traces[tr]
TraceInit == tr \in DOMAIN Traces /\ pos = 0 /\ bad = {}
TraceNext == pos < Len(C.ev) /\ pos' = pos + 1 /\ tr' = tr /\ bad' = Judge(C.ev[pos + 1])
Report == bad' = {} \/ PrintT("@@" \o ToJson([tr |-> tr, pos |-> pos', bad |-> bad']))
=============================================================================
