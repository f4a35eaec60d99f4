BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}r.h.pl"; }
use strict; use warnings;
our ($SUB, $SIM_FN);
# runs $fn; notes whether it died, hands its results over
sub attempt { my ($what, $fn) = @_; SIM::note("try $what"); my @r = eval { $fn->() }; my $e = $@; SIM::note($e ? "died" : "done"); return ($e, @r); }
sub client {
    my ($me) = @_;
    SIM::killable(1); SIM::role(1);
    for my $r (1 .. 1 + pick(3)) {
        my $dbh = dbconnect() or next;
        next unless eval { $dbh->load_sths(one => "select value from q$me where name = ?", all => "select value from q$me", pair => "select name, value from q$me where name = ?", pairs => "select * from q$me", other => "select * from q$me", set => "replace into q$me values (?, ?)", up => "update q$me set value = ? where name = ?"); 1 };
        my %rows; # what is in the table
        my ($e) = attempt("del", sub { $dbh->runSQL([ "delete from q$me where name = 'a'", "delete from q$me where name = 'b'", "delete from q$me where name = 'c'" ]); }); next if $e;
        my $n = pick(4); my $bad = 0;
        for my $k ((qw/a b c/)[0 .. $n - 1]) { my ($e) = attempt("set", sub { $dbh->{sth}->set($k, "v$k"); }); if ($e) { $bad = 1; last; } $rows{$k} = "v$k"; }
        next if $bad;
        # functions that have no row to look at
        for my $q (1 .. 2 + pick(4)) {
            if (pick(4) == 3 && eval { $dbh->ping }) { my $k = (qw/a b c/)[pick(3)]; my ($e) = attempt("up", sub { $dbh->{sth}->up("w$q", $k) }); last if $e; $rows{$k} = "w$q" if exists $rows{$k}; }
            my $key = (qw/a b c/)[pick(3)]; my $how = pick(20); my $sel = pick(4);
            my ($sth, @args) = (("one", $key), ("pair", $key), ("all"), ("pairs"))[0]; ($sth, @args) = $sel == 0 ? ("one", $key) : $sel == 1 ? ("pair", $key) : $sel == 2 ? ("all") : ("pairs");
            my $cols = $sel & 1 ? 2 : 1; my @match = $sel < 2 ? (exists $rows{$key} ? ($key) : ()) : sort keys %rows; my $m = @match;
            my $row = sub { my ($k) = @_; return $cols == 1 ? ($rows{$k}) : ($k, $rows{$k}); };
            my $h = sub { my ($k) = @_; return $cols == 1 ? "value=$rows{$k}" : "name=$k,value=$rows{$k}"; };
            my $flat = sub { my ($x) = @_; return 'undef' unless defined $x; return join(",", map { "$_=" . (defined $x->{$_} ? $x->{$_} : 'undef') } sort keys %$x); };
            my ($want, $must, $fn) = (undef, 0);
            # $want: the answer as a string; undef: must die
            if ($how == 0) { $want = $m == 0 ? 'undef' : $m > 1 || $cols > 1 ? undef : $rows{$match[0]}; $fn = sub { my $v = $dbh->{sth}->$sth(@args)->value(); defined $v ? $v : 'undef' }; }
            elsif ($how == 1) { $want = $m != 1 || $cols > 1 ? undef : $rows{$match[0]}; $fn = sub { my $v = $dbh->{sth}->$sth(@args)->requiredValue(); defined $v ? $v : 'undef' }; }
            elsif ($how == 2) { $want = $m != 1 ? undef : $h->($match[0]); $fn = sub { $flat->($dbh->{sth}->$sth(@args)->oneRow()) }; }
            elsif ($how == 3) { $want = $m != 1 ? undef : join(",", $row->($match[0])); $fn = sub { join(",", $dbh->{sth}->$sth(@args)->oneRowArray()) }; }
            elsif ($how == 4) { $want = $m > 1 ? undef : $m ? $h->($match[0]) : 'undef'; $fn = sub { my $x = $dbh->{sth}->$sth(@args)->atMostOneRow(); $flat->($x) }; }
            elsif ($how == 5) { $want = $m > 1 ? undef : $m ? join(",", $row->($match[0])) : ''; $fn = sub { join(",", $dbh->{sth}->$sth(@args)->atMostOneRowArray()) }; }
            elsif ($how == 6) { $want = $m != 1 ? undef : $h->($match[0]); $fn = sub { $flat->($dbh->{sth}->oneRow($sth, @args)) }; }
            elsif ($how == 7) { $want = $m > 1 ? undef : $m ? $h->($match[0]) : 'undef'; $fn = sub { $flat->(scalar $dbh->{sth}->atMostOneRow($sth, @args)) }; }
            elsif ($how <= 9) { $want = join(";", map { $h->($_) } @match); $fn = sub { my $x = $dbh->{sth}->$sth(@args); my @o; while (my $r = $x->fetchHash()) { push @o, $flat->($r); points(pick(2)); } join(";", @o) }; }
            elsif ($how <= 11) { $want = join(";", map { join(",", $row->($_)) } @match); $fn = sub { my $x = $dbh->{sth}->$sth(@args); my @o; while (my @r = $x->fetchArray()) { push @o, join(",", @r); points(pick(2)); } join(";", @o) }; $want = join(";", map { join(",", $row->($_)) } @match); }
            elsif ($how == 12) { $want = join(";", map { join(",", $row->($_)) } @match); $fn = sub { $dbh->{sth}->$sth(@args); my @o; while (my @r = $dbh->{sth}->fetchArray()) { push @o, join(",", @r); } join(";", @o) }; }
            elsif ($how == 13) { $want = join(";", map { $h->($_) } @match); $fn = sub { $dbh->{sth}->$sth(@args); my @o; while (my $r = $dbh->{sth}->fetchHash()) { push @o, $flat->($r); } join(";", @o) }; }
            elsif ($how == 14) { # two queries at a time, by their own handles
                my @all = sort keys %rows; $want = join(";", map { $h->($_) } @match) . "|" . join(";", map { "$_,$rows{$_}" } @all);
                $fn = sub { my $x = $dbh->{sth}->$sth(@args); my $y = $dbh->{sth}->other(); my (@o, @p); my ($dx, $dy) = (0, 0);
                    while (!$dx || !$dy) { unless ($dx) { my $r = $x->fetchHash(); if ($r) { push @o, $flat->($r) } else { $dx = 1 } } unless ($dy) { my @r = $y->fetchArray(); if (@r) { push @p, join(",", @r) } else { $dy = 1 } } } join(";", @o) . "|" . join(";", @p) }; }
            elsif ($how == 15) { $fn = sub { $dbh->{sth}->nosuch(@args) }; }
            elsif ($how == 16) { $want = $m != 1 ? undef : $h->($match[0]); $fn = sub { my $s = $dbh->prepare($sth eq "one" ? "select value from q$me where name = ?" : $sth eq "pair" ? "select name, value from q$me where name = ?" : $sth eq "all" ? "select value from q$me" : "select * from q$me"); $s->execute(@args); $flat->($s->oneRow()) }; }
            elsif ($how == 17) { $fn = sub { $dbh->load_sths(oneRow => "select value from q$me") }; }
            elsif ($how == 19) { my $w = pick(2); $want = join(";", map { $w ? $rows{$_} : $_ } sort keys %rows); # a later definition replaces an earlier one
                $fn = sub { $dbh->load_sths(again => $w ? "select name from q$me" : "select value from q$me"); $dbh->load_sths(again => $w ? "select value from q$me" : "select name from q$me"); my $x = $dbh->{sth}->again(); my @o; while (my @r = $x->fetchArray()) { push @o, @r; } join(";", @o) }; }
            else { $fn = sub { $dbh->runSQL([ "update q$me set value = 'z' where name = 'nosuch'", "nonsense", "delete from q$me" ]) }; }
            my ($e, $got) = attempt("query", $fn);
            my $name = (qw/value requiredValue oneRow oneRowArray atMostOneRow atMostOneRowArray sth.oneRow sth.atMostOneRow fetchHash fetchHash fetchArray fetchArray sth.fetchArray sth.fetchHash two-queries unknown DBI.oneRow reserved runSQL replaced/)[$how];
            if (!$e) { 
                SIM::violate("should-die: $name with $m rows of $cols columns returned '$got'") unless defined $want;
                SIM::violate("wrong-answer: $name with $m rows of $cols columns returned '$got' instead of '$want'") unless $got eq $want; SIM::probe("answered"); }
            elsif (defined $want) { SIM::note("mustfault $name"); } else { SIM::probe("refused"); }
            last unless eval { $dbh->ping };
        }
    }
}
sub r03_main {
    SIM::faultbar(1);
    my $n = 1 + pick(2);
    eval { my $dbh = dbconnect() or die; $dbh->runSQL([ map { "create table q$_ (name char(9), value char(9))" } 0 .. $n - 1 ]); $dbh->disconnect; 1 } or SIM::violate("spurious-failure: statements that succeed were reported as failed: " . clean($@));
    SIM::faultbar(0);
    spawn(1 + $_, sub { client($_) }) for 0 .. $n - 1;
    reap_all();
}
sim_main();
