use strict; use warnings;
BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}pl.h.pl"; }
use Lintel::ProcessManager 'maskCoredump';
our ($SUB, $SIM_FN);
our ($pm, %live, %ended, $main, $tok, $stall);   # %live: pid -> record
sub bad { my ($c, $t) = @_; SIM::violate("$c: $t"); }
sub same_children { my ($when) = @_;
    my $x = join(",", sort { $a <=> $b } $pm->children()); my $y = join(",", sort { $a <=> $b } keys %live);
    bad("wrong-children", "after $when children() is ($x), the started and not yet reported children are ($y)") unless $x eq $y;
    my $n = $pm->nChildren(); bad("wrong-count", "after $when nChildren() is $n, should be " . scalar(keys %live)) unless $n == keys %live; }
# a child has been reported (by exit function: $fn, or only returned by a call)
sub consume { my ($pid, $status) = @_; my $r = delete $live{$pid};
    SIM::note("report $pid $status");
    bad("failure-hidden", "child $r->{tok} could not do its work but is reported with status 0") if $status == 0 && ($r->{noexec} || $r->{dies});
    if ($r->{file}) { for my $f (sort keys %{$r->{file}}) { my $got = slurp($f); my $want = $r->{file}{$f};
        if (!defined $got) { bad("output-lost", "child $r->{tok}: output file $f does not exist"); }
        elsif ($status == 0 && $got ne $want) { bad("wrong-output", "child $r->{tok}: $f contains '$got', expected '$want'"); } } }
    $r->{consumed} = 1; $ended{$pid} = $r; }
sub exit_fn { my ($r) = @_; return sub { my ($pid, $status) = @_;
    bad("foreign-exitfn", "exit function runs in process $$") if $$ != $main;
    bad("exitfn-twice", "exit function of child $r->{tok} runs again") if $r->{fnran}++;
    bad("exitfn-wrong-pid", "exit function of child $r->{tok} gets pid $pid, is $r->{pid}") if defined $r->{pid} && $pid != $r->{pid};
    if (!exists $live{$pid}) { $live{$pid} = $r; $r->{pid} = $pid; }
    bad("child-still-listed", "child $pid is still listed in its exit function") if grep { $_ == $pid } $pm->children();
    $r->{fnstatus} = $status; consume($pid, $status);
    if ($r->{respawn}) { $r->{respawn} = 0; start_child(); }
  } }
# results returned by wait/waitAll
sub returned { my ($call, %res) = @_;
    for my $pid (sort { $a <=> $b } keys %res) { my $st = $res{$pid};
        if (exists $ended{$pid} && $ended{$pid}{fnran} && !$ended{$pid}{ret}) { my $r = $ended{$pid}; $r->{ret} = 1; bad("status-differs", "$call returns $st for $pid, its exit function got $r->{fnstatus}") if $st != $r->{fnstatus}; next; }
        unless (exists $live{$pid}) { bad("invented-child", "$call returned pid $pid which is no unreported child"); }
        bad("exitfn-missed", "$call returned child $pid but its exit function did not run") if $live{$pid}{fn};
        consume($pid, $st); $ended{$pid}{ret} = 1;
        my $m = maskCoredump($st | 0x80); bad("mask", "maskCoredump($st|0x80) is $m") if $m != ($st & ~0x80);
    }
    for my $pid (sort { $a <=> $b } keys %ended) { my $r = $ended{$pid}; bad("not-returned", "$call reaped child $pid (exit function ran) but did not return it") if $r->{fnran} && !$r->{ret}; }
    same_children($call); }
sub child_code { my ($r, $plan) = @_;
    $SUB = 20 + $r->{tok} % 60; SIM::role(1);
    my ($steps, $sleep, $how, $code, $out, $errt) = @$plan;
    print STDOUT $out if $out ne ''; print STDERR $errt if $errt ne '';
    points($steps); nap($sleep) if $sleep;
    if ($how == 0) { die "it failed" if $r->{dies}; return; } elsif ($how == 1) { exit($code); } else { kill(($code % 3 == 0 ? 'TERM' : $code % 3 == 1 ? 'KILL' : 'SEGV'), $$); points(5); exit(99); } }
sub start_child {
    my $t = ++$tok; my $kind = pick(6); my $r = { tok => $t, fn => 0 };
    my ($steps, $sleep, $how, $code) = (pick(6), pick(3) == 2 ? (0, 0.05, 0.1, 0.3, 1, 2.5)[pick(6)] : 0, pick(3), 1 + pick(200));
    my ($out, $errt) = ("", ""); my %o;
    if (pick(3) == 2) { my $f = pick(4) == 3 ? "/dev/null" : "out" . $t; $o{stdout} = $f; $out = "o$t"; $r->{file}{$f} = $out unless $f =~ /null/; }
    if (pick(3) == 2) { if (pick(2) && defined $o{stdout}) { $o{stderr} = 'STDOUT'; $errt = "e$t"; $r->{file}{$o{stdout}} .= $errt unless $o{stdout} =~ /null/; } else { $o{stderr} = "err$t"; $errt = "e$t"; $r->{file}{"err$t"} = $errt; } }
    if ($r->{file} && pick(2)) { for my $f (keys %{$r->{file}}) { open(my $h, '>', $f) or die; print $h "old contents which are longer"; close $h; } }
    if (pick(2)) { $r->{fn} = 1; $r->{respawn} = pick(6) == 5 && !(SIM::faults() & 2); $o{exitfn} = exit_fn($r); }
    $o{setpgid} = 1 if pick(5) == 4;
    my @cmd = ("simcmd", "c$t"); push @cmd, "p$steps" if $steps; push @cmd, "o$out" if $out ne ''; push @cmd, "O$errt" if $errt ne ''; push @cmd, "z" . int($sleep * 1000) if $sleep;
    push @cmd, $how == 1 ? "e$code" : $how == 2 ? "s" . (15, 9, 11)[$code % 3] : "e0";
    if ($kind <= 2) { $r->{dies} = 1 if pick(4) == 3; my $plan = [$steps, $sleep, $how, $code, $out, $errt]; $o{cmd} = sub { child_code($r, $plan) }; }
    elsif ($kind == 3) { $o{cmd} = \@cmd; } elsif ($kind == 4) { $o{cmd} = join(" ", @cmd); }
    else { $o{cmd} = ["nosuchcommand", "x"]; $r->{noexec} = 1; }
    my %before = map { $_ => 1 } $pm->children();
    SIM::note("fork-begin");
    my $pid = eval { $pm->fork(%o) }; my $err = $@;
    if ($$ != $main) { bad("child-goes-on", "the child $t, whose command failed, went on with the code of its parent"); exit(99); }
    SIM::note("fork-end " . (defined $pid ? $pid : 0));
    if (defined $pid) { $r->{pid} = $pid; unless ($r->{consumed}) { bad("pid-reused-live", "fork returned pid $pid of a live child") if exists $live{$pid}; delete $ended{$pid}; $live{$pid} = $r; } }
    else { for my $p ($pm->children()) { next if $before{$p} || exists $live{$p}; delete $ended{$p}; $r->{pid} = $p; $r->{file} = undef; $live{$p} = $r; SIM::note("adopt $p"); } SIM::probe("fork-exception"); }
    SIM::note("started $pid") if defined $pid; }
sub m01_main {
    $main = $$; SIM::role(2); $SIG{USR1} = sub { }; $stall = 0;
    my $auto = pick(4); my $sig = pick(3) == 2; my $nsig = 0;
    $pm = new Lintel::ProcessManager($auto == 1 ? (auto_kill_on_destroy => 1) : $auto == 2 ? (auto_kill_on_destroy => 0) : ());
    if ($sig) { $pm->enableSignals(sub { ++$nsig; SIM::probe("signal-handler"); }); }
    my $ops = 3 + pick(14);
    for my $i (1 .. $ops) {
        my $op = pick(10); same_children("operation");
        if ($op <= 3 || !%live && $op < 9) { start_child() if keys %live < 12; }
        elsif ($op == 4) { my $to = (0, 0.05, 0.3, 1, 3)[pick(5)]; SIM::note("wait-begin"); my $t0 = SIM::now(); my %r = $pm->wait($to); my $dt = SIM::now() - $t0;
            returned("wait($to)", %r); SIM::note(sprintf("timed %.3f %.6f %d", $to, $dt, scalar keys %r)); }
        elsif ($op == 5) { my %r = $pm->wait(); bad("empty-wait", "wait without limit returned nothing") unless %r; returned("wait", %r); }
        elsif ($op == 6) { my @all = sort { $a <=> $b } keys %live; my $p = $all[pick(scalar @all)]; my $r = $live{$p}; my $st = $pm->waitPid($p);
            bad("waitpid-undef", "waitPid($p) returned no status") unless defined $st;
            if ($r->{fn}) { bad("exitfn-missed", "waitPid($p) returned but the exit function did not run") unless $r->{fnran}; bad("status-differs", "waitPid($p) returns $st, the exit function got $r->{fnstatus}") if $st != $r->{fnstatus}; } else { consume($p, $st); }
            $r->{ret} = 1;
            my %c = map { $_ => 1 } $pm->children();
            for my $q (sort { $a <=> $b } keys %live) { next if $c{$q}; bad("exitfn-missed", "child $q is no longer listed but its exit function did not run") if $live{$q}{fn}; SIM::note("gone $q"); delete $live{$q}; }
            $_->{ret} = 1 for values %ended;
            same_children("waitPid"); }
        elsif ($op == 7) { my %r = $pm->waitAll(); returned("waitAll", %r); bad("waitall-left", "waitAll left children") if $pm->nChildren() > 0; }
        elsif ($op == 8) { my @all = sort { $a <=> $b } keys %live; my $p = $all[pick(scalar @all)]; my $n = kill 'TERM', $p; bad("child-vanished", "child $p cannot be signalled before it is reported") unless $n == 1; }
        else { if (%live) { nap((0.01, 0.1, 0.5)[pick(3)]); } else { my %r = eval { $pm->wait(0) }; bad("wait-no-children", "wait without children did not raise an exception") unless $@; bad("waitpid-unknown", "waitPid of an unknown pid returned a status") if defined $pm->waitPid(77); my %a = $pm->waitAll(); bad("waitall-empty", "waitAll without children returned something") if %a; } }
    }
    if (pick(3) == 2 && !$sig) { # the manager goes away (enableSignals keeps it alive for ever) with children still running
        my @l = sort { $a <=> $b } keys %live; SIM::note("destroy " . ($auto == 2 ? 0 : 1) . " @l"); undef $pm; SIM::note("destroyed"); 
        for (@l) { my $p = waitpid($_, 0); bad("child-lost", "child $_ is gone after destroying the manager") if $p != $_; SIM::note("report $_ $?"); } }
    else { my %r = $pm->waitAll(); returned("final waitAll", %r); undef $pm; }
    my $p = waitpid(-1, 0); bad("zombie-left", "process $p was started by the manager but never reported (status $?)") if $p > 0;
    SIM::note("done");
}
sim_main();
