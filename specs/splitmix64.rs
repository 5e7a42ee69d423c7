@fn splitmix64::splitmix64
@spec
@end
