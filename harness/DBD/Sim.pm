# DBI driver (stub): every call is a request to the database server inside the simulator (SIM::call).
# What DBI asks of a driver is implemented here; the server (dbsim.hpp) decides what happens.
package DBD::Sim;
use strict; use warnings; require DBI;
our ($drh, $VERSION) = (undef, '1.0');
our $CLOBBER = 0;   # drivers are free to use eval inside, which resets $@
sub driver { return $drh if $drh; my ($class) = @_; $drh = DBI::_new_drh("${class}::dr", { Name => 'Sim', Version => $VERSION }); return $drh; }
sub CLONE { undef $drh }
sub call { my $r; while (1) { $r = SIM::call(join("\x1f", @_)); last unless $r eq 'wait'; select(undef, undef, undef, 0.05); } eval { 1 } if $CLOBBER; return split(/\x1f/, $r, -1); }

package DBD::Sim::dr; our $imp_data_size = 0;
sub connect { my ($drh, $name) = @_; my @r = DBD::Sim::call('conn');
    return $drh->set_err(2003, $r[2]) unless $r[0] eq 'ok';
    my ($outer, $dbh) = DBI::_new_dbh($drh, { Name => $name }); $dbh->{sim_id} = $r[1]; $dbh->STORE(Active => 1); $dbh->STORE(AutoCommit => 1); return $outer; }
sub disconnect_all { 1 }
sub DESTROY { undef }

package DBD::Sim::db; our $imp_data_size = 0;
sub sim { my ($dbh, @q) = @_; my ($op, @a) = @q; my @r = DBD::Sim::call($op, $dbh->{sim_id}, @a);
    # a connection that is gone takes its transaction with it
    if ($r[0] eq 'err' && $r[1] == 1213 || $r[0] eq 'lost') { $dbh->{sim_ac} = 1; $dbh->{sim_bw} = 0; $dbh->STORE(Active => 0) if $r[0] eq 'lost'; }
    return @r; }
sub STORE { my ($dbh, $k, $v) = @_;
    if ($k eq 'AutoCommit') {
        my $was = defined $dbh->{sim_ac} ? $dbh->{sim_ac} : 1; $dbh->{sim_ac} = $v ? 1 : 0;
        if ($v && !$was) { sim_x($dbh, 'commit'); } elsif (!$v && $was) { sim_x($dbh, 'begin'); }
        return 1; }
    if ($k =~ /^sim_/) { $dbh->{$k} = $v; return 1; }
    return $dbh->SUPER::STORE($k, $v); }
sub FETCH { my ($dbh, $k) = @_; return $dbh->{sim_ac} if $k eq 'AutoCommit'; return $dbh->{$k} if $k =~ /^sim_/; return $dbh->SUPER::FETCH($k); }
sub sim_x { my ($dbh, $op) = @_; my @r = sim($dbh, $op); return 1 if $r[0] eq 'ok'; return $dbh->set_err($r[1], $r[2]); }
sub begin_work { my ($dbh) = @_; return $dbh->set_err(2000, "Already in a transaction") unless $dbh->{sim_ac};
    my @r = sim($dbh, 'begin'); return $dbh->set_err($r[1], $r[2]) unless $r[0] eq 'ok'; $dbh->{sim_ac} = 0; $dbh->{sim_bw} = 1; return 1; }
# only a transaction of begin_work brings AutoCommit back; without it the next one starts at once
sub over { my ($dbh) = @_; if ($dbh->{sim_bw}) { $dbh->{sim_ac} = 1; $dbh->{sim_bw} = 0; } elsif (!$dbh->{sim_ac}) { sim($dbh, 'begin'); } return 1; }
sub commit { my ($dbh) = @_; if ($dbh->{sim_ac}) { warn "commit ineffective with AutoCommit enabled\n" if $dbh->FETCH('Active'); }
    my @r = sim($dbh, 'commit'); return $dbh->set_err($r[1], $r[2]) unless $r[0] eq 'ok'; return over($dbh); }
sub rollback { my ($dbh) = @_; if ($dbh->{sim_ac}) { if ($dbh->FETCH('Active')) { warn "rollback ineffective with AutoCommit enabled\n"; return 1; } }
    my @r = sim($dbh, 'rollback'); return $dbh->set_err($r[1], $r[2]) unless $r[0] eq 'ok'; return over($dbh); }
sub prepare { my ($dbh, $sql) = @_; my @r = sim($dbh, 'prep', $sql); return $dbh->set_err($r[1], $r[2]) unless $r[0] eq 'ok';
    my ($outer, $sth) = DBI::_new_sth($dbh, { Statement => $sql }); $sth->{sim_dbh} = $dbh; $sth->{sim_cols} = [ split /,/, $r[2] ]; $sth->STORE(NUM_OF_PARAMS => $r[1]);
    $sth->STORE(NUM_OF_FIELDS => scalar @{$sth->{sim_cols}}) if @{$sth->{sim_cols}}; return $outer; }
sub do { my ($dbh, $sql, $attr, @bind) = @_; my $sth = $dbh->prepare($sql, $attr) or return undef; $sth->execute(@bind) or return undef; my $n = $sth->rows; return $n ? $n : "0E0"; }
sub table_info { my ($dbh, $cat, $schema, $table, $type) = @_; ($table, $type) = @{$cat}{qw/TABLE_NAME TABLE_TYPE/} if ref $cat;
    my @r = sim($dbh, 'tinfo', defined $table ? $table : '%'); if ($r[0] ne 'ok') { return $dbh->set_err($r[1], $r[2]); } shift @r;
    my ($outer, $sth) = DBI::_new_sth($dbh, { Statement => 'tables' }); $sth->{sim_dbh} = $dbh; $sth->{sim_local} = 1; $sth->{sim_cols} = [qw/TABLE_CAT TABLE_SCHEM TABLE_NAME TABLE_TYPE REMARKS/];
    $sth->STORE(NUM_OF_FIELDS => 5); $sth->{sim_rows} = [ map { [ undef, undef, $_, 'TABLE', undef ] } @r ]; $sth->STORE(Active => 1); return $outer; }
sub ping { my ($dbh) = @_; my @r = sim($dbh, 'ping'); return $r[0] eq 'ok' ? 1 : 0; }
sub quote { my ($dbh, $v) = @_; return 'NULL' unless defined $v; $v =~ s/'/''/g; return "'$v'"; }
sub disconnect { my ($dbh) = @_; DBD::Sim::call('disc', $dbh->{sim_id}) if defined $dbh->{sim_id} && $dbh->FETCH('Active'); $dbh->STORE(Active => 0); return 1; }
sub DESTROY { my ($dbh) = @_; local $@; disconnect($dbh) if defined $dbh->{sim_id} && $dbh->FETCH('Active'); return; }

package DBD::Sim::st; our $imp_data_size = 0;
sub bind_param { my ($sth, $n, $v) = @_; $sth->{sim_bind}{$n} = $v; return 1; }
sub execute { my ($sth, @bind) = @_; $sth->finish if $sth->FETCH('Active');
    @bind = map { $sth->{sim_bind}{$_} } sort { $a <=> $b } keys %{ $sth->{sim_bind} || {} } unless @bind;
    return $sth->set_err(2031, "called with " . scalar(@bind) . " bind variables when " . $sth->FETCH('NUM_OF_PARAMS') . " are needed") if @bind != $sth->FETCH('NUM_OF_PARAMS');
    my @r = DBD::Sim::db::sim($sth->{sim_dbh}, 'exec', $sth->{Statement}, map { defined $_ ? $_ : '' } @bind);
    return $sth->set_err($r[1], $r[2]) unless $r[0] eq 'ok';
    my $n = @{$sth->{sim_cols}}; my @flat = @r[2 .. $#r]; my @rows; while ($n && @flat) { push @rows, [ splice @flat, 0, $n ]; }
    $sth->{sim_rows} = \@rows; $sth->{sim_n} = $n ? scalar @rows : $r[1]; $sth->STORE(Active => 1) if $n; return $n ? '0E0' : $r[1] ? $r[1] : '0E0'; }
sub fetchrow_arrayref { my ($sth) = @_; return $sth->set_err(1, "fetch() without execute()") unless $sth->{sim_rows} && $sth->FETCH('Active');
    unless ($sth->{sim_local}) { my @r = DBD::Sim::db::sim($sth->{sim_dbh}, 'fetch'); unless ($r[0] eq 'ok') { $sth->finish; return $sth->set_err($r[1], $r[2]); } }
    my $row = shift @{$sth->{sim_rows}}; unless ($row) { $sth->finish; return undef; } return $sth->_set_fbav($row); }
*fetch = \&fetchrow_arrayref;
sub rows { my ($sth) = @_; return defined $sth->{sim_n} ? $sth->{sim_n} : -1; }
sub finish { my ($sth) = @_; $sth->STORE(Active => 0); $sth->SUPER::finish; return 1; }
sub FETCH { my ($sth, $k) = @_; return $sth->{sim_cols} if $k eq 'NAME'; return $sth->{$k} if $k =~ /^sim_/; return $sth->SUPER::FETCH($k); }
sub STORE { my ($sth, $k, $v) = @_; if ($k =~ /^sim_/) { $sth->{$k} = $v; return 1; } return $sth->SUPER::STORE($k, $v); }
sub DESTROY { undef }
1;
