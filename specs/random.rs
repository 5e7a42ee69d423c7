@fn utils::random::generate_seed
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
  ensures final(log).draws == old(log).draws.push(Draw::Bytes(r@)),
@end
