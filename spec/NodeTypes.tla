---------------------------- MODULE NodeTypes ----------------------------
(* The catalogue of node types: names of the (connectable) inputs, of the    *)
(* atoms (settings that are not connectable) and of the outputs, in order.   *)
NT == [
  nop |-> [ins |-> <<>>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<>>],
  amp |-> [ins |-> <<"inp", "gain", "att">>,
      ats |-> <<"neg_att">>, atp |-> <<3>>,
      outs |-> <<"sig">>],
  mix3 |-> [ins |-> <<"ch1", "ch2", "ch3", "vol1", "vol2", "vol3", "ovol">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  mux9 |-> [ins |-> <<"slct", "t_rst", "t_up", "t_down", "in_1", "in_2", "in_3", "in_4", "in_5", "in_6", "in_7", "in_8", "in_9">>,
      ats |-> <<"in_cnt">>, atp |-> <<13>>,
      outs |-> <<"sig">>],
  smap |-> [ins |-> <<"inp", "min", "max">>,
      ats |-> <<"clip", "mode">>, atp |-> <<4, 3>>,
      outs |-> <<"sig">>],
  map |-> [ins |-> <<"inp", "atv", "offs", "imin", "imax", "min", "max">>,
      ats |-> <<"clip">>, atp |-> <<7>>,
      outs |-> <<"sig">>],
  quant |-> [ins |-> <<"freq", "oct">>,
      ats |-> <<"keys">>, atp |-> <<2>>,
      outs |-> <<"sig", "t">>],
  cqnt |-> [ins |-> <<"inp", "oct">>,
      ats |-> <<"keys", "omin", "omax">>, atp |-> <<2, 3, 4>>,
      outs |-> <<"sig", "t">>],
  tseq |-> [ins |-> <<"clock", "trig">>,
      ats |-> <<"cmode">>, atp |-> <<2>>,
      outs |-> <<"trk1", "trk2", "trk3", "trk4", "trk5", "trk6", "gat1", "gat2", "gat3", "gat4", "gat5", "gat6">>],
  code |-> [ins |-> <<"in1", "in2", "alpha", "beta", "delta", "gamma">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig", "sig1", "sig2">>],
  rust1x1 |-> [ins |-> <<"inp", "alpha", "beta", "delta", "gamma">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  sampl |-> [ins |-> <<"freq", "trig", "offs", "len", "dcms", "det">>,
      ats |-> <<"sample", "pmode", "dclick", "dir">>, atp |-> <<6, 7, 8, 9>>,
      outs |-> <<"sig">>],
  sin |-> [ins |-> <<"freq", "det", "pm">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  bosc |-> [ins |-> <<"freq", "det", "pw">>,
      ats |-> <<"wtype">>, atp |-> <<3>>,
      outs |-> <<"sig">>],
  vosc |-> [ins |-> <<"freq", "det", "d", "v", "vs", "damt">>,
      ats |-> <<"dist", "ovrsmpl">>, atp |-> <<6, 7>>,
      outs |-> <<"sig">>],
  bowstri |-> [ins |-> <<"freq", "det", "vel", "force", "pos">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  midip |-> [ins |-> <<"det", "glen">>,
      ats |-> <<"chan", "gmode">>, atp |-> <<2, 3>>,
      outs |-> <<"freq", "gate", "vel">>],
  midicc |-> [ins |-> <<"slew">>,
      ats |-> <<"chan", "cc1", "cc2", "cc3">>, atp |-> <<1, 2, 3, 4>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  exta |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  extb |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  extc |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  extd |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  exte |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  extf |-> [ins |-> <<"slew", "atv1", "atv2", "atv3">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2", "sig3">>],
  inp |-> [ins |-> <<"vol">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig1", "sig2">>],
  out |-> [ins |-> <<"ch1", "ch2", "vol">>,
      ats |-> <<"mono">>, atp |-> <<3>>,
      outs |-> <<>>],
  fbwr |-> [ins |-> <<"inp">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<>>],
  fbrd |-> [ins |-> <<"vol">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  scope |-> [ins |-> <<"in1", "in2", "in3", "time", "trig", "thrsh", "off1", "off2", "off3", "gain1", "gain2", "gain3">>,
      ats |-> <<"tsrc">>, atp |-> <<12>>,
      outs |-> <<>>],
  ad |-> [ins |-> <<"inp", "trig", "atk", "dcy", "ashp", "dshp">>,
      ats |-> <<"mult">>, atp |-> <<6>>,
      outs |-> <<"sig", "eoet">>],
  adsr |-> [ins |-> <<"inp", "gate", "atk", "dcy", "sus", "rel", "ashp", "dshp", "rshp">>,
      ats |-> <<"mult">>, atp |-> <<9>>,
      outs |-> <<"sig", "eoet">>],
  tslfo |-> [ins |-> <<"time", "trig", "rev">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  rndwk |-> [ins |-> <<"trig", "step", "offs", "min", "max", "slew">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  delay |-> [ins |-> <<"inp", "trig", "time", "fb", "mix">>,
      ats |-> <<"mode">>, atp |-> <<5>>,
      outs |-> <<"sig">>],
  allp |-> [ins |-> <<"inp", "time", "g">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  comb |-> [ins |-> <<"inp", "time", "g">>,
      ats |-> <<"mode">>, atp |-> <<3>>,
      outs |-> <<"sig">>],
  noise |-> [ins |-> <<"atv", "offs">>,
      ats |-> <<"mode">>, atp |-> <<2>>,
      outs |-> <<"sig">>],
  formfm |-> [ins |-> <<"freq", "det", "form", "side", "peak">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig">>],
  sfilter |-> [ins |-> <<"inp", "freq", "res">>,
      ats |-> <<"ftype">>, atp |-> <<3>>,
      outs |-> <<"sig">>],
  fvafilt |-> [ins |-> <<"in_l", "in_r", "freq", "res", "drive">>,
      ats |-> <<"ftype", "smode", "lmode">>, atp |-> <<5, 6, 7>>,
      outs |-> <<"sig_l", "sig_r">>],
  biqfilt |-> [ins |-> <<"inp", "freq", "q", "gain">>,
      ats |-> <<"ftype", "order">>, atp |-> <<4, 5>>,
      outs |-> <<"sig">>],
  pverb |-> [ins |-> <<"in_l", "in_r", "predly", "size", "dcy", "ilpf", "ihpf", "dif", "dmix", "mspeed", "mshp", "mdepth", "rlpf", "rhpf", "mix">>,
      ats |-> <<>>, atp |-> <<>>,
      outs |-> <<"sig_l", "sig_r">>],
  test |-> [ins |-> <<"f">>,
      ats |-> <<"p", "trig">>, atp |-> <<1, 2>>,
      outs |-> <<"sig", "tsig", "out2", "out3", "out4", "outc">>]
]
===========================================================================
