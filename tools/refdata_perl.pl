use Unicode::UCD qw(prop_invmap prop_invlist);
use strict; binmode STDOUT, ':utf8';
my ($prop)=@ARGV;
my ($list,$map,$fmt,$def)=prop_invmap($prop);
die "no $prop" unless defined $list;
print "#fmt=$fmt def=$def\n";
for my $i (0..$#$list){
  my $a=$list->[$i]; my $b= $i<$#$list ? $list->[$i+1]-1 : 0x10FFFF;
  my $v=$map->[$i];
  if (ref $v) { $v = $fmt =~ /^a/ ? join(' ',map {sprintf '%X',$_} @$v) : join('|',@$v); }
  printf "%X..%X;%s\n",$a,$b,$v;
}
