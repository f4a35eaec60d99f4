# common part of the simulated perl programs
BEGIN { unshift @INC, "$ENV{DSIM_REPO}/src"; }
use strict; use warnings;
sub pick { my ($n) = @_; return SIM::choose($main::SUB, $n); }
our $SUB = 0;
$| = 1;
# runs $fn in a new process with its own choice stream; returns the pid
sub spawn { my ($sub, $fn) = @_; my $pid;
    for (1 .. 50) { $pid = fork(); last if defined $pid; select(undef, undef, undef, 0.05); }
    die "cannot fork" unless defined $pid;
    if ($pid == 0) { $SUB = $sub; $fn->(); exit(0); }
    return $pid; }
sub reap_all { my $n = 0; while (1) { my $p = waitpid(-1, 0); last if $p <= 0; ++$n; } return $n; }
sub slurp { my ($f) = @_; open(my $h, '<', $f) or return undef; local $/; my $x = <$h>; return defined $x ? $x : ''; }
sub points { my ($n) = @_; SIM::point() for 1 .. $n; }
sub nap { my ($s) = @_; my $end = SIM::now() + $s; while (1) { my $left = $end - SIM::now(); last if $left <= 0; select(undef, undef, undef, $left); } }
our $SIM_FN;
sub sim_main { no strict 'refs'; &{"main::$SIM_FN"}(); }
1;
