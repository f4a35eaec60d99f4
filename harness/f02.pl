use strict; use warnings;
our $HDIR; BEGIN { $HDIR = $0; $HDIR =~ s![^/]*$!!; require "${HDIR}pl.h.pl"; }
use Lintel::File::Lock; use Getopt::Long; use Sys::Hostname; use Pod::Usage; use Fcntl; use Errno; use Time::HiRes ();
BEGIN { hostname(); }
our ($SUB, $SIM_FN); our $QUICKEXIT = 1;
sub put { my ($f, $t) = @_; open(my $h, '>', $f) or die "$f: $!"; print $h $t; close $h; }
# the lock command of the working tree, as cmake would install it
sub install { SIM::faultbar(1); my $t = slurp("$ENV{DSIM_REPO}/src/lintel-flock.in"); $t =~ s/\@PERL_PATH\@/perl/g; $t =~ s/\@PERL5_MODULES_INC_UNSHIFT\@//g; put("lf.pl", $t); SIM::faultbar(0); }
sub run_lf { my (@args) = @_; SIM::role(2); @ARGV = @args; open(STDERR, '>>', "lf.log"); $| = 0; do "./lf.pl"; if ($@) { print STDERR $@; exit(255); } exit(0); }
sub lockargs { my ($f, $wait) = @_; return ("--filename=lock$f", defined $wait ? "--waittime=$wait" : ()); }
my $id = 0;
sub command_client { my ($me, $f, $wait) = @_;
    my $n = $me * 100 + ++$id; my @how = ("p" . pick(4), ("z" . 100 * pick(30)) x pick(2)); my $end = pick(5); my $v = $end == 1 ? 1 + pick(3) : $end == 2 ? 200 + pick(40) : 0;
    push @how, $end == 3 ? "s15" : $end == 4 ? "s9" : "e$v"; my $want = $end >= 3 ? 233 : $v; my $form = pick(2);
    my $pid = spawn(1 + $SUB, sub { SIM::note("lf $n $f " . (defined $wait ? $wait : -1) . " $want"); open(STDOUT, '>>', "lf.log"); run_lf(lockargs($f, $wait), $form ? ("--command=simcmd $n @how") : ("--", "simcmd", $n, @how)); });
    waitpid($pid, 0); SIM::note("lfend $n $?"); }
sub script_client { my ($me, $f, $wait) = @_;
    my $n = $me * 100 + ++$id; my $c = $$; my $out = ""; my ($r, $w); pipe($r, $w) or die;
    my $pid = spawn(1 + $SUB, sub { SIM::note("lf $n $f " . (defined $wait ? $wait : -1) . " -1"); close $r; open(STDOUT, '>&', $w) or die; close $w; run_lf(lockargs($f, $wait), "--callpid=$c"); });
    close $w; { local $/; $out = <$r>; } $out = "" unless defined $out; close $r; waitpid($pid, 0); my $st = $?; chomp $out; $out =~ s/\n.*//s;
    if ($out =~ /^success: V1: (\d+)$/) { my $bg = $1; SIM::note("got $n $f $bg $st"); points(pick(4)); nap(pick(40) * 0.1) if pick(2); SIM::note("check $f");
        my $how = pick(4);
        if ($how == 1) { SIM::note("rel $f"); exit(0); }
        if ($how == 2) { SIM::note("rel $f"); kill 'KILL', $$; }
        SIM::note("rel $f");
        my $u = spawn(1 + $SUB, sub { open(STDOUT, '>>', "lf.log"); run_lf("--unlock=$out"); }); waitpid($u, 0); SIM::note("unlocked $bg $?"); points(pick(3)); nap(pick(20) * 0.1) if pick(2);
    } else { SIM::note("not $n $f $st $out"); } }
sub client { my ($me, $nfiles) = @_; SIM::role(1);
    for (1 .. 1 + pick(3)) { my $f = pick($nfiles); my $m = pick(4); my $wait = $m == 0 ? undef : $m == 3 ? 3 : $m - 1;
        nap(pick(30) * 0.1) if pick(2); if (pick(2)) { script_client($me, $f, $wait); } else { command_client($me, $f, $wait); } } }
sub f02_main { install(); my $nfiles = 1 + pick(4) % 3 % 2; my $n = 2 + pick(3);
    for my $i (1 .. $n) { spawn(10 * $i, sub { client($i, $nfiles) }); }
    reap_all(); SIM::note("alldone"); my $k = 0; while (SIM::live() > 1) { nap(0.2); } SIM::faultbar(1);
    for my $f (0 .. $nfiles - 1) { my $fh = Lintel::File::Lock::getLock("lock$f", 0); SIM::note("final $f " . (defined $fh ? 1 : 0)); } }
sim_main();
