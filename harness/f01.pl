use strict; use warnings;
BEGIN { my $d = $0; $d =~ s![^/]*$!!; require "${d}pl.h.pl"; }
use Lintel::File::Lock;
use Fcntl;
our ($SUB, $SIM_FN);
sub contender {
    my ($nfiles) = @_;
    SIM::killable(1); SIM::role(1);
    $SIG{USR1} = sub { } if pick(2);
    my $rounds = 1 + pick(3);
    for my $r (1 .. $rounds) {
        my $f = pick($nfiles); my $mode = pick(5); my $wait = $mode == 0 ? undef : $mode == 4 ? 2 + pick(4) : $mode - 1; # undef, 0, 1, 2, 2..5
        nap(pick(30) * 0.1) if pick(2); points(pick(4));
        my $ex = pick(2);
        SIM::note("want $f " . (defined $wait ? $wait : -1));
        my $t0 = SIM::now();
        my $fh = eval { $ex ? Lintel::File::Lock::getLockEx("lock$f", waittime => $wait, mode => 0600) : Lintel::File::Lock::getLock("lock$f", $wait); };
        my $err = $@; my $dt = SIM::now() - $t0;
        if ($err) { $err =~ s/\n.*//s; SIM::note("exc $f $err"); next; }
        unless (defined $fh) { SIM::note(sprintf("timeout $f %.6f", $dt)); next; }
        SIM::note(sprintf("acq $f %.6f", $dt));
        my $text = slurp("lock$f"); SIM::note("content $f $text");
        my $how = pick(6);
        points(pick(5)); nap(pick(40) * 0.1) if pick(2);
        if ($how == 1) { # leave a mark in the file
            seek($fh, 0, 2); print $fh "."; $fh->flush(); SIM::note("append $f");
        }
        SIM::note("check $f");
        if ($how == 2) { SIM::note("rel $f"); exit(0); }
        if ($how == 3) { SIM::note("rel $f"); kill 'KILL', $$; }
        SIM::note("rel $f"); undef $fh;
        points(pick(3));
    }
}
sub f01_main {
    my $nfiles = 1 + pick(2); my $n = 2 + pick(4);
    for my $f (0 .. $nfiles - 1) { if (pick(2)) { open(my $h, '>', "lock$f"); print $h "seed"; close $h; SIM::note("init $f seed"); } }
    spawn(1 + $_, sub { contender($nfiles) }) for 0 .. $n - 1;
    reap_all();
    SIM::note("alldone"); SIM::faultbar(1);
    for my $f (0 .. $nfiles - 1) { my $fh = Lintel::File::Lock::getLock("lock$f", 0); SIM::note("final $f " . (defined $fh ? 1 : 0)); }
}
sim_main();
