"""Hand-written programs around the edges of the language."""
PROGRAMS = [
 'def 0 { a(); }',
 'def 0 { return; }',
 'def 0 { end; a(); return; }',
 'def 0 { @a; }',
 'def 0 { jump @a; x(); @a; }',
 'def 0 { @a; jump @a; }',
 'def 0 { a(); @l; @m; b(); jump @l; }',
 'def 0 { call @s; a(); end; @s; b(); return; }',
 'def 0 { call @s; end; } def 1 { @s; b(); return; }',
 'def 0 { jump @x; } def 1 { a(); @x; b(); end; }',
 'def 0 { forever { a(); break_loop; } b(); }',
 'def 0 { forever { if (debug) { continue; } a(); if (edit) { break_loop; } } b(); end; }',
 'def 0 { while (debug) { a(); } b(); }',
 'def 0 { while not (debug) { a(); continue; b(); } c(); }',
 'def 0 { for ($a = 0; $a < 3; $a += 1;) { if ($a == 2) { continue; } x(); } end; }',
 'def 0 { for ($a = 0; $a < 3; $a += 1;) { if ($a == 2) { break_loop; } x(); } end; }',
 'def 0 { for ($a = 0; $a < 3; $a += 1;) { } end; }',
 'def 0 { if (debug) { } else { a(); } b(); }',
 'def 0 { if (debug) { } elseif (edit) { } else { } b(); }',
 'def 0 { if not (debug || edit || variation) { a(); } elseif not (not debug) { b(); } else { c(); } d(); end; }',
 'def 0 { if ($A == 1 || $A == 2) { a(); } }',
 'def 0 { if not ($A == 1 || $A == 2) { a(); } }',
 'def 0 { if not (debug) { jump @e; } a(); @e; b(); end; }',
 'def 0 { if (debug) { jump @e; } else { jump @f; } @e; a(); @f; b(); end; }',
 'def 0 { switch ($A) { } a(); }',
 'def 0 { switch ($A) { default: a(); } b(); }',
 'def 0 { switch ($A) { case 1: case 2: a(); break; default: b(); case 3: c(); } d(); }',
 'def 0 { switch ($A) { case 1: default: a(); break; case 2: b(); } d(); }',
 'def 0 { switch ($A) { case 1: a(); case 2: b(); break; case > 3: c(); default: d(); } e(); }',
 'def 0 { switch ($A) { default: break; case 1: a(); break; case 2: break; } e(); end; }',
 'def 0 { switch ($A) { case 1: jump @x; case 2: a(); break; case 3: @x; b(); } c(); end; }',
 'def 0 { switch (scn($SCENARIO_MAIN)[0]) { case < 3: a(); break; case 4: b(); } }',
 'def 0 { switch (scn($SCENARIO_MAIN)[1]) { case < 3: a(); break; case 4: b(); } }',
 'def 0 { switch (random(4)) { case 0: a(); break; case 1: b(); break; default: c(); } }',
 'def 0 { switch (dungeon_mode(3)) { case 0: a(); break; case DMODE_OPEN: b(); break; } }',
 'def 0 { switch (sector()) { case 0: a(); break; case >= value($X): b(); break; } }',
 'def 0 { switch (message_SwitchMenu(1, 2)) { case menu("a"): a(); break; case menu2(3): b(); break; default: c(); } }',
 'def 0 { switch ($A) { case 1: switch ($B) { case 1: a(); break; default: b(); } break; default: c(); } d(); end; }',
 'def 0 { forever { switch ($A) { case 1: continue; case 2: break; case 3: break_loop; default: x(); } y(); } z(); end; }',
 'def 0 { switch ($A) { case 1: forever { a(); if (debug) { break_loop; } } break; case 2: b(); } c(); end; }',
 'def 0 { switch ($A) { case 1: while (debug) { if (edit) { break; } a(); } b(); break; case 2: c(); } d(); end; }',
 'def 0 { message_SwitchTalk($A) { case 1: "a" default: "z" case 2: {english="b"} } end; }',
 'def 0 { message_SwitchMonologue($A) { } end; }',
 'def 0 { with (actor 1) { x(); } with (object OBJ) { $A = 3; } with (performer 2) { y(1); } end; }',
 'def 0 { a<actor 1>(); b<object X>(1, 2,); c<performer 3>("x"); end; }',
 'def 0 { $A = 1; $A -= 2; $A += 3; $A *= 4; $A /= 5; $A = value($B); $A += value($B); $A[3] = 1; end; }',
 'def 0 { PERFORMANCE_PROGRESS_LIST[3] = 1; clear $A; init $A; reset dungeon_result; reset scn($A); end; }',
 'def 0 { adventure_log = 3; dungeon_mode(1) = DMODE_OPEN; dungeon_mode(D) = 2; $S = scn[1, 2]; end; }',
 'def 0 { if (scn($S) == [1, 2]) { a(); } if (scn($S) < [1, 2]) { a(); } if (scn($S) <= [1, 2]) { b(); } if (scn($S) > [1, 2]) { c(); } if (scn($S) >= [1, 2]) { d(); } end; }',
 'def 0 { if ($A[3]) { a(); } if (PERFORMANCE_PROGRESS_LIST[3]) { b(); } if (not PERFORMANCE_PROGRESS_LIST[3]) { b(); } if (not edit) { c(); } end; }',
 'def 0 { if ($A TRUE 1) { a(); } if ($A FALSE 1) { a(); } if ($A & 1) { a(); } if ($A ^ 1) { a(); } if ($A &<< 1) { a(); } if ($A != 1) { a(); } end; }',
 'def 0 { if ($A == value($B)) { a(); } if ($A <= value($B)) { a(); } while ($A >= value($B)) { b(); } end; }',
 'def 0 { if (BranchSum(1, 2, 3)) { a(); } elseif (BranchExecuteSub(4)) { b(); } end; }',
 'def 0 for actor ACTOR_PLAYER { a(); } def 1 for_object(3) { b(); } def 2 for performer 4 { alias previous; }',
 'coro CORO_A { a(); } coro CORO_B { alias previous; } coro CORO_C { call @x; @x; c(); }',
 'def 0 { a(); } def 1 { @l; b(); } def 2 { jump @l; }',
 'def 0 { hold; a(); } def 1 { Destroy(); b(); } def 2 { JumpCommon(3); c(); } def 3 { End(); } def 4 { x<actor 1>(); }',
 'def 0 { with (actor 1) { End(); } a(); end; }',
 'def 0 { if (debug) { return; } elseif (edit) { end; } else { hold; } a(); }',
 'def 0 { if (debug) { @a; x(); } else { jump @a; } jump @a; }',
 'def 0 { a("x", \'y\', 1.5, -0.25, $A, CONST, {english="a", german=\'b\'}, Position<"m", 1, 2.5>); end; }',
 'def 0 { forever { forever { a(); if (debug) { break_loop; } if (edit) { continue; } b(); } c(); break_loop; } d(); end; }',
 'def 0 { while (debug) { while (edit) { a(); } } end; }',
 'def 0 { if (debug) { forever { a(); } } b(); }',
 'def 0 { if (debug) { switch ($A) { case 1: a(); } } else { switch ($B) { case 1: b(); break; } } c(); }',
 'def 0 { switch ($A) { case 1: if (debug) { break; } a(); case 2: b(); break; default: if (edit) { c(); } } d(); }',
 'def 0 { @a; if (debug) { jump @b; } x(); jump @a; @b; y(); end; }',
 'def 0 { jump @c; @a; x(); end; @b; y(); jump @a; @c; z(); jump @b; }',
 'macro m() { return; } def 0 { ~m(); a(); ~m(); }',
 'macro m($a) { if ($a == 1) { return; } x($a); } def 0 { ~m(1); a(); ~m($V); }',
 'macro i($a, $b) { x($a, $b); } macro o($a, $b) { ~i($b, $a); ~i($a, $a); } def 0 { ~o(1, 2); }',
 'macro m() { @l; a(); if (debug) { jump @l; } } def 0 { @l; ~m(); ~m(); jump @l; }',
 'macro m($p) { forever { $p += 1; if ($p > 3) { break_loop; } } } def 0 { forever { ~m($X); if (debug) { break_loop; } } ~m($Y); end; }',
 'macro m($p) { message_SwitchTalk($p) { case $p: "a" default: "b" } switch ($p) { case $p: y($p); break; default: z(); } } def 0 { ~m(3); ~m(C); end; }',
]
