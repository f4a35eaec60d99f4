BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}r.h.pl"; }
use strict; use warnings;
our ($SUB, $SIM_FN);
# the text of one step as an application writer would put it
sub sql { my ($app, $step, @st) = @_; my $how = pick(3);
    return [ @st ] if $how == 0;
    my @o; for my $s (@st) { my $c = pick(7); push @o, ($c == 5 ? "--it's;tight\n" : $c == 6 ? "--\n-- ;\n--\"\n" : $c == 1 ? "-- step $step; it's a note\n" : $c == 2 ? "\n  " : $c == 3 ? "-- \"quoted; \n" : "") . $s . ($c == 4 ? "   -- done; really" . "\n" : "") . ";"; }
    my $text = join($how == 1 ? "\n" : " ", @o) . (pick(3) == 2 ? " -- the end" : "");
    my $r = pick(2) ? Lintel::DBI::splitSQL($text) : (bless { }, 'Lintel::DBI')->splitSQL($text);
    SIM::violate("split-wrong: " . scalar(@$r) . " statements instead of " . scalar(@st)) unless @$r == @st;
    return $r; }
our $LONG = 0; sub appname { return ('app', 'a-report-of-things-with-a-name-of-some-length.pl', "it's (a) name;", 'x' x 150)[$LONG] . $_[0]; }
# one run of the application: release $rel of it wants version $target
sub app_run {
    my ($app, $target, $init, $noinit, $broken, $nopath, $skip, $legacy) = @_;
    SIM::killable(1); SIM::role(1);
    $DBD::Sim::CLOBBER = pick(2);
    my $dbh = dbconnect(application => appname($app), trace_errors => pick(4) == 3) or return;
    my %m; 
    $m{init} = { to_version => $init, sql => sql($app, 'init', "create table m_$app (name varchar(9) primary key, value varchar(99))", "insert into m_$app values ('init', '1')", "insert into m_$app values ('steps', '0')", ($broken == 0 ? "nonsense" : ()), (pick(2) ? "insert into m_$app values ('note', 'it''s; done')" : ()), (pick(2) ? "insert into m_$app values ('n2', \"say 'x; y\")" : ()), (pick(2) ? "insert into m_$app values ('n3', 'a \"b; c -- d')" : ())) } unless $noinit;
    for my $k (1 .. $target - 1) { next if $k == $nopath;
        my @st = ("insert into m_$app values ('step$k', '1')", "update m_$app set value = value + 1 where name = 'steps'"); push @st, "create table x_${app}_$k (name varchar(9), value varchar(9))" if $k == 2; push @st, "drop table if exists x_${app}_2" if $k == 3;
        splice(@st, 1 + pick(scalar @st), 0, "insert into nosuch$app values ('a', 'b')") if $broken == $k;
        $m{$k} = { to_version => ($k == $skip && $k + 2 <= $target ? $k + 2 : $k + 1), sql => sql($app, $k, @st) }; }
    my $from;
    if ($legacy || pick(3) == 2) { SIM::note("getver $app"); my $v = eval { $dbh->getInstalledSchemaVersion() }; my $e = $@; SIM::note("gotver $app " . ($e ? 'died' : defined $v ? $v : 'undef')); return if $e; $from = 1 if $legacy && !defined $v; }
    SIM::note("setup $app $target " . ($noinit ? 0 : $init) . " $broken $nopath $skip " . ($from || 0));
    eval { $dbh->setupSchema($target, \%m, ($from ? $from : pick(2) ? undef : ())); }; my $e = $@;
    SIM::note($e ? "exc $app " . (clean($e) =~ /there is no|no defined upgrade|uses schema version/i ? 'version' : 'other') : "ok $app");
    SIM::probe($e ? "setup-refused" : "setup-ok");
    # settings of the application's own
    for my $j (1 .. pick(4)) {
        last unless eval { $dbh->ping } && $dbh->{dbh}{AutoCommit};
        my $key = "own-$app-" . pick(2); my $op = pick(9);
        if ($op <= 3) { my $val = "v$j" . ('x' x (pick(2) ? 1100 * pick(2) : pick(5))); my $nm = $key; $nm .= 'n' x 260 if pick(12) == 11;
            SIM::note("cfgset $nm " . length($val)); my $ok = eval { $dbh->setConfig($nm, $val); 1 }; SIM::note(($ok ? "cfgok $nm " : "cfgexc $nm ") . length($val)); }
        elsif ($op <= 6) { SIM::note("cfgget $key"); my $v = eval { $dbh->getConfig($key) }; my $e = $@; SIM::note("cfggot $key " . ($e ? 'died' : defined $v ? 'v' . length($v) : 'undef')); }
        elsif ($op == 7) { my $nm = "lintel-dbi-schema-" . appname(pick(3)); SIM::note("reserved $nm"); my $ok = eval { $dbh->setConfig($nm, 77); 1 }; SIM::violate("reserved-allowed: setConfig on the reserved name $nm did not die") if $ok; SIM::note("reserved-died"); }
        else { SIM::note("getver $app"); my $v = eval { $dbh->getInstalledSchemaVersion() }; my $e = $@; SIM::note("gotver $app " . ($e ? 'died' : defined $v ? $v : 'undef')); }
    }
    eval { $dbh->disconnect } if pick(2);
}
# the life of one application: its releases, one after the other
sub app_life {
    my ($app) = @_;
    my $legacy = pick(4) == 3; my $init = 1;
    if ($legacy) { SIM::faultbar(1); my $dbh = dbconnect() or die; SIM::note("legacy $app"); $dbh->runSQL([ "create table m_$app (name varchar(9), value varchar(99))", "insert into m_$app values ('init', '1')", "insert into m_$app values ('steps', '0')" ]); SIM::note("legacydone $app"); $dbh->disconnect; SIM::faultbar(0); }
    my $rel = 1 + pick(2); my $sub = 10 + $app * 12;
    for my $r (1 .. 2 + pick(4)) {
        $rel += pick(3) if $r > 1; $rel = 4 if $rel > 4; my $target = $rel; $target = 1 + pick($rel) if pick(8) == 7;
        $init = pick(3) ? $target : 1; my $skip = 1 + pick(4);
        my @a = ($app, $target, $init, pick(8) == 7, pick(5) == 4 ? pick(4) : -1, pick(8) == 7 ? 1 + pick(3) : 0, $skip, $legacy);
        my $pid = spawn($sub + $r, sub { app_run(@a) });
        1 while waitpid($pid, 0) != $pid;
    }
}
sub r02_main {
    my $n = 1 + pick(3); $LONG = pick(4); SIM::note('appname ' . appname('')); 
    spawn(1 + $_, sub { app_life($_) }) for 0 .. $n - 1;
    reap_all();
    SIM::note("alldone");
}
sim_main();
