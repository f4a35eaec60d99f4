BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}r.h.pl"; }
use strict; use warnings;
our ($SUB, $SIM_FN);
{ package FalseError; use overload 'bool' => sub { 0 }, '""' => sub { "false error\n" }, 'eq' => sub { "$_[0]" eq "$_[1]" }, fallback => 1; sub new { bless { }, shift } }
{ package ErrorObj; sub new { my ($c, $t) = @_; bless { text => $t }, $c } }
sub client {
    my ($me) = @_;
    SIM::killable(1); SIM::role(1);
    my $n = 0; my $rounds = 1 + pick(3);
    for my $r (1 .. $rounds) {
        $DBD::Sim::CLOBBER = pick(2);
        my $trace = pick(4) == 3;
        my $dbh = dbconnect(trace_errors => $trace) or next;
        next unless eval { $dbh->load_sths(ins => "insert into t values (?, ?)", add => "update c set value = value + ? where name = ?", get => "select value from c where name = ?", dup => "insert into c values (?, ?)"); 1 };
        for my $k (1 .. 1 + pick(3)) {
            my $id = "$me-" . ++$n; my $nops = 1 + pick(4); my ($threw, $thrown, $called) = (0, undef, 0);
            my $body = sub {
                for my $j (1 .. $nops) {
                    my $op = $j == 1 ? 0 : pick(8);
                    if ($op <= 1) { $dbh->{sth}->ins("$id.$j", "x"); SIM::note("row $id $j"); }
                    elsif ($op == 2) { my $by = 1 + pick(3); $dbh->{sth}->add($by, "n"); SIM::note("add $id $by"); }
                    elsif ($op == 3) { my $v = $dbh->{sth}->get("n")->requiredValue(); }
                    elsif ($op == 4) { eval { $dbh->{sth}->dup("n", 1); }; my $e = $@; die $e if $e =~ /deadlock|lost|gone/; }
                    elsif ($op == 5) { $dbh->runSQL([ "insert into t values ('$id.$j', 'y')" ]); SIM::note("row $id $j"); }
                    elsif ($op == 6) { points(1 + pick(3)); }
                    else { eval { die "caught\n" }; nap(0.05 * pick(5)); }
                }
                my $end = pick(14);
                if ($end == 1) { die "plain error $id\n" } elsif ($end == 2) { die "error with line $id" } elsif ($end == 3) { die ErrorObj->new($id) }
                elsif ($end == 4) { die { code => $id } } elsif ($end == 5) { die FalseError->new() } elsif ($end == 6) { $dbh->{sth}->dup("n", 1); }
                elsif ($end == 7) { $dbh->runSQL([ "insert into t values ('$id.r', 'y')", "nonsense" ]); } elsif ($end == 8) { die "two\nlines $id\n" } elsif ($end == 13) { $dbh->{sth}->nosuch(1) }
                elsif ($end == 9) { return 0 } elsif ($end == 10) { return } elsif ($end == 11) { eval { die "last\n" } }
            };
            my $fn = sub { ++$called; SIM::note("in $id"); my $ok = eval { $body->(); 1 }; unless ($ok) { $threw = 1; $thrown = $@; SIM::note("threw $id"); die $thrown; } SIM::note("fin $id"); return pick(3) == 2 ? undef : 0; };
            SIM::note("begin $id");
            local $@; my $ok = eval { $dbh->transaction($fn); 1 }; my $err = $@;
            SIM::violate("called-twice: the function was called $called times") if $called > 1;
            if ($ok) { SIM::note("ok $id"); SIM::violate("error-swallowed: the function died with '" . clean($thrown) . "' but transaction() returned") if $threw; SIM::violate("not-called: transaction() returned without calling the function") unless $called; SIM::probe("committed"); }
            else {
                SIM::note("exc $id " . ($threw ? 1 : 0) . " $called");
                if ($threw) {
                    SIM::probe(ref $thrown ? "object-thrown" : "function-died");
                    if ($trace) { my $want = ref $thrown ? "$thrown" : $thrown; SIM::violate("error-lost: the function died with '" . clean($thrown) . "', transaction() with '" . clean($err) . "'") unless index("$err", $want) >= 0; }
                    elsif (ref $thrown) { SIM::violate("error-lost: the function died with an object (" . ref($thrown) . "), transaction() with '" . clean($err) . "'") unless ref $err && Scalar::Util::refaddr($err) == Scalar::Util::refaddr($thrown); }
                    else { SIM::violate("error-lost: the function died with '" . clean($thrown) . "', transaction() with '" . clean($err) . "'") unless $err eq $thrown; }
                } else { SIM::violate("empty-error: transaction() died without saying why") unless defined $err && length "$err"; }
            }
            last unless eval { $dbh->ping } && $dbh->{dbh}{AutoCommit}; # a rollback that failed: give the connection up
            if (pick(4) == 3) { # a statement of its own after the transaction takes effect at once
                my $did = eval { $dbh->{sth}->ins("$id.after", "x"); 1 }; SIM::note("after $id") if $did; }
        }
        if (pick(2)) { eval { $dbh->disconnect } }
        undef $dbh;
    }
}
sub r01_main {
    SIM::faultbar(1);
    eval { my $dbh = dbconnect() or die; $dbh->runSQL(Lintel::DBI::splitSQL("create table t (name char(9), value char(9));\ncreate table c (name char(9), value char(9));insert into c values ('n', '0');")); $dbh->disconnect; 1 } or SIM::violate("spurious-failure: statements that succeed were reported as failed: " . clean($@));
    SIM::faultbar(0);
    my $n = 1 + pick(3);
    spawn(1 + $_, sub { client($_) }) for 0 .. $n - 1;
    reap_all();
    SIM::note("alldone");
}
use Scalar::Util;
sim_main();
