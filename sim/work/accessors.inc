struct A_x { static constexpr int n=1; static constexpr bool wr=true; static constexpr int idx[4]={0}; static constexpr const char*nm=".x"; template<class O> static constexpr auto &&of(O &o) { return o.x; } };
struct A_xx { static constexpr int n=2; static constexpr bool wr=false; static constexpr int idx[4]={0,0}; static constexpr const char*nm=".xx"; template<class O> static constexpr auto &&of(O &o) { return o.xx; } };
struct A_xxx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,0,0}; static constexpr const char*nm=".xxx"; template<class O> static constexpr auto &&of(O &o) { return o.xxx; } };
struct A_xxxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,0,0}; static constexpr const char*nm=".xxxx"; template<class O> static constexpr auto &&of(O &o) { return o.xxxx; } };
struct A_y { static constexpr int n=1; static constexpr bool wr=true; static constexpr int idx[4]={1}; static constexpr const char*nm=".y"; template<class O> static constexpr auto &&of(O &o) { return o.y; } };
struct A_xy { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={0,1}; static constexpr const char*nm=".xy"; template<class O> static constexpr auto &&of(O &o) { return o.xy; } };
struct A_yx { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={1,0}; static constexpr const char*nm=".yx"; template<class O> static constexpr auto &&of(O &o) { return o.yx; } };
struct A_yy { static constexpr int n=2; static constexpr bool wr=false; static constexpr int idx[4]={1,1}; static constexpr const char*nm=".yy"; template<class O> static constexpr auto &&of(O &o) { return o.yy; } };
struct A_xxy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,0,1}; static constexpr const char*nm=".xxy"; template<class O> static constexpr auto &&of(O &o) { return o.xxy; } };
struct A_xyx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,1,0}; static constexpr const char*nm=".xyx"; template<class O> static constexpr auto &&of(O &o) { return o.xyx; } };
struct A_xyy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,1,1}; static constexpr const char*nm=".xyy"; template<class O> static constexpr auto &&of(O &o) { return o.xyy; } };
struct A_yxx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,0,0}; static constexpr const char*nm=".yxx"; template<class O> static constexpr auto &&of(O &o) { return o.yxx; } };
struct A_yxy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,0,1}; static constexpr const char*nm=".yxy"; template<class O> static constexpr auto &&of(O &o) { return o.yxy; } };
struct A_yyx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,1,0}; static constexpr const char*nm=".yyx"; template<class O> static constexpr auto &&of(O &o) { return o.yyx; } };
struct A_yyy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,1,1}; static constexpr const char*nm=".yyy"; template<class O> static constexpr auto &&of(O &o) { return o.yyy; } };
struct A_xxxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,0,1}; static constexpr const char*nm=".xxxy"; template<class O> static constexpr auto &&of(O &o) { return o.xxxy; } };
struct A_xxyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,1,0}; static constexpr const char*nm=".xxyx"; template<class O> static constexpr auto &&of(O &o) { return o.xxyx; } };
struct A_xxyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,1,1}; static constexpr const char*nm=".xxyy"; template<class O> static constexpr auto &&of(O &o) { return o.xxyy; } };
struct A_xyxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,0,0}; static constexpr const char*nm=".xyxx"; template<class O> static constexpr auto &&of(O &o) { return o.xyxx; } };
struct A_xyxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,0,1}; static constexpr const char*nm=".xyxy"; template<class O> static constexpr auto &&of(O &o) { return o.xyxy; } };
struct A_xyyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,1,0}; static constexpr const char*nm=".xyyx"; template<class O> static constexpr auto &&of(O &o) { return o.xyyx; } };
struct A_xyyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,1,1}; static constexpr const char*nm=".xyyy"; template<class O> static constexpr auto &&of(O &o) { return o.xyyy; } };
struct A_yxxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,0,0}; static constexpr const char*nm=".yxxx"; template<class O> static constexpr auto &&of(O &o) { return o.yxxx; } };
struct A_yxxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,0,1}; static constexpr const char*nm=".yxxy"; template<class O> static constexpr auto &&of(O &o) { return o.yxxy; } };
struct A_yxyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,1,0}; static constexpr const char*nm=".yxyx"; template<class O> static constexpr auto &&of(O &o) { return o.yxyx; } };
struct A_yxyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,1,1}; static constexpr const char*nm=".yxyy"; template<class O> static constexpr auto &&of(O &o) { return o.yxyy; } };
struct A_yyxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,0,0}; static constexpr const char*nm=".yyxx"; template<class O> static constexpr auto &&of(O &o) { return o.yyxx; } };
struct A_yyxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,0,1}; static constexpr const char*nm=".yyxy"; template<class O> static constexpr auto &&of(O &o) { return o.yyxy; } };
struct A_yyyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,1,0}; static constexpr const char*nm=".yyyx"; template<class O> static constexpr auto &&of(O &o) { return o.yyyx; } };
struct A_yyyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,1,1}; static constexpr const char*nm=".yyyy"; template<class O> static constexpr auto &&of(O &o) { return o.yyyy; } };
struct A_z { static constexpr int n=1; static constexpr bool wr=true; static constexpr int idx[4]={2}; static constexpr const char*nm=".z"; template<class O> static constexpr auto &&of(O &o) { return o.z; } };
struct A_xz { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={0,2}; static constexpr const char*nm=".xz"; template<class O> static constexpr auto &&of(O &o) { return o.xz; } };
struct A_yz { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={1,2}; static constexpr const char*nm=".yz"; template<class O> static constexpr auto &&of(O &o) { return o.yz; } };
struct A_zx { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={2,0}; static constexpr const char*nm=".zx"; template<class O> static constexpr auto &&of(O &o) { return o.zx; } };
struct A_zy { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={2,1}; static constexpr const char*nm=".zy"; template<class O> static constexpr auto &&of(O &o) { return o.zy; } };
struct A_zz { static constexpr int n=2; static constexpr bool wr=false; static constexpr int idx[4]={2,2}; static constexpr const char*nm=".zz"; template<class O> static constexpr auto &&of(O &o) { return o.zz; } };
struct A_xxz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,0,2}; static constexpr const char*nm=".xxz"; template<class O> static constexpr auto &&of(O &o) { return o.xxz; } };
struct A_xyz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,1,2}; static constexpr const char*nm=".xyz"; template<class O> static constexpr auto &&of(O &o) { return o.xyz; } };
struct A_xzx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,2,0}; static constexpr const char*nm=".xzx"; template<class O> static constexpr auto &&of(O &o) { return o.xzx; } };
struct A_xzy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,2,1}; static constexpr const char*nm=".xzy"; template<class O> static constexpr auto &&of(O &o) { return o.xzy; } };
struct A_xzz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,2,2}; static constexpr const char*nm=".xzz"; template<class O> static constexpr auto &&of(O &o) { return o.xzz; } };
struct A_yxz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,0,2}; static constexpr const char*nm=".yxz"; template<class O> static constexpr auto &&of(O &o) { return o.yxz; } };
struct A_yyz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,1,2}; static constexpr const char*nm=".yyz"; template<class O> static constexpr auto &&of(O &o) { return o.yyz; } };
struct A_yzx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,2,0}; static constexpr const char*nm=".yzx"; template<class O> static constexpr auto &&of(O &o) { return o.yzx; } };
struct A_yzy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,2,1}; static constexpr const char*nm=".yzy"; template<class O> static constexpr auto &&of(O &o) { return o.yzy; } };
struct A_yzz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,2,2}; static constexpr const char*nm=".yzz"; template<class O> static constexpr auto &&of(O &o) { return o.yzz; } };
struct A_zxx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,0,0}; static constexpr const char*nm=".zxx"; template<class O> static constexpr auto &&of(O &o) { return o.zxx; } };
struct A_zxy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,0,1}; static constexpr const char*nm=".zxy"; template<class O> static constexpr auto &&of(O &o) { return o.zxy; } };
struct A_zxz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,0,2}; static constexpr const char*nm=".zxz"; template<class O> static constexpr auto &&of(O &o) { return o.zxz; } };
struct A_zyx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,1,0}; static constexpr const char*nm=".zyx"; template<class O> static constexpr auto &&of(O &o) { return o.zyx; } };
struct A_zyy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,1,1}; static constexpr const char*nm=".zyy"; template<class O> static constexpr auto &&of(O &o) { return o.zyy; } };
struct A_zyz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,1,2}; static constexpr const char*nm=".zyz"; template<class O> static constexpr auto &&of(O &o) { return o.zyz; } };
struct A_zzx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,2,0}; static constexpr const char*nm=".zzx"; template<class O> static constexpr auto &&of(O &o) { return o.zzx; } };
struct A_zzy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,2,1}; static constexpr const char*nm=".zzy"; template<class O> static constexpr auto &&of(O &o) { return o.zzy; } };
struct A_zzz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,2,2}; static constexpr const char*nm=".zzz"; template<class O> static constexpr auto &&of(O &o) { return o.zzz; } };
struct A_xxxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,0,2}; static constexpr const char*nm=".xxxz"; template<class O> static constexpr auto &&of(O &o) { return o.xxxz; } };
struct A_xxyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,1,2}; static constexpr const char*nm=".xxyz"; template<class O> static constexpr auto &&of(O &o) { return o.xxyz; } };
struct A_xxzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,2,0}; static constexpr const char*nm=".xxzx"; template<class O> static constexpr auto &&of(O &o) { return o.xxzx; } };
struct A_xxzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,2,1}; static constexpr const char*nm=".xxzy"; template<class O> static constexpr auto &&of(O &o) { return o.xxzy; } };
struct A_xxzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,2,2}; static constexpr const char*nm=".xxzz"; template<class O> static constexpr auto &&of(O &o) { return o.xxzz; } };
struct A_xyxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,0,2}; static constexpr const char*nm=".xyxz"; template<class O> static constexpr auto &&of(O &o) { return o.xyxz; } };
struct A_xyyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,1,2}; static constexpr const char*nm=".xyyz"; template<class O> static constexpr auto &&of(O &o) { return o.xyyz; } };
struct A_xyzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,2,0}; static constexpr const char*nm=".xyzx"; template<class O> static constexpr auto &&of(O &o) { return o.xyzx; } };
struct A_xyzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,2,1}; static constexpr const char*nm=".xyzy"; template<class O> static constexpr auto &&of(O &o) { return o.xyzy; } };
struct A_xyzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,2,2}; static constexpr const char*nm=".xyzz"; template<class O> static constexpr auto &&of(O &o) { return o.xyzz; } };
struct A_xzxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,0,0}; static constexpr const char*nm=".xzxx"; template<class O> static constexpr auto &&of(O &o) { return o.xzxx; } };
struct A_xzxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,0,1}; static constexpr const char*nm=".xzxy"; template<class O> static constexpr auto &&of(O &o) { return o.xzxy; } };
struct A_xzxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,0,2}; static constexpr const char*nm=".xzxz"; template<class O> static constexpr auto &&of(O &o) { return o.xzxz; } };
struct A_xzyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,1,0}; static constexpr const char*nm=".xzyx"; template<class O> static constexpr auto &&of(O &o) { return o.xzyx; } };
struct A_xzyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,1,1}; static constexpr const char*nm=".xzyy"; template<class O> static constexpr auto &&of(O &o) { return o.xzyy; } };
struct A_xzyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,1,2}; static constexpr const char*nm=".xzyz"; template<class O> static constexpr auto &&of(O &o) { return o.xzyz; } };
struct A_xzzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,2,0}; static constexpr const char*nm=".xzzx"; template<class O> static constexpr auto &&of(O &o) { return o.xzzx; } };
struct A_xzzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,2,1}; static constexpr const char*nm=".xzzy"; template<class O> static constexpr auto &&of(O &o) { return o.xzzy; } };
struct A_xzzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,2,2}; static constexpr const char*nm=".xzzz"; template<class O> static constexpr auto &&of(O &o) { return o.xzzz; } };
struct A_yxxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,0,2}; static constexpr const char*nm=".yxxz"; template<class O> static constexpr auto &&of(O &o) { return o.yxxz; } };
struct A_yxyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,1,2}; static constexpr const char*nm=".yxyz"; template<class O> static constexpr auto &&of(O &o) { return o.yxyz; } };
struct A_yxzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,2,0}; static constexpr const char*nm=".yxzx"; template<class O> static constexpr auto &&of(O &o) { return o.yxzx; } };
struct A_yxzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,2,1}; static constexpr const char*nm=".yxzy"; template<class O> static constexpr auto &&of(O &o) { return o.yxzy; } };
struct A_yxzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,2,2}; static constexpr const char*nm=".yxzz"; template<class O> static constexpr auto &&of(O &o) { return o.yxzz; } };
struct A_yyxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,0,2}; static constexpr const char*nm=".yyxz"; template<class O> static constexpr auto &&of(O &o) { return o.yyxz; } };
struct A_yyyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,1,2}; static constexpr const char*nm=".yyyz"; template<class O> static constexpr auto &&of(O &o) { return o.yyyz; } };
struct A_yyzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,2,0}; static constexpr const char*nm=".yyzx"; template<class O> static constexpr auto &&of(O &o) { return o.yyzx; } };
struct A_yyzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,2,1}; static constexpr const char*nm=".yyzy"; template<class O> static constexpr auto &&of(O &o) { return o.yyzy; } };
struct A_yyzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,2,2}; static constexpr const char*nm=".yyzz"; template<class O> static constexpr auto &&of(O &o) { return o.yyzz; } };
struct A_yzxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,0,0}; static constexpr const char*nm=".yzxx"; template<class O> static constexpr auto &&of(O &o) { return o.yzxx; } };
struct A_yzxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,0,1}; static constexpr const char*nm=".yzxy"; template<class O> static constexpr auto &&of(O &o) { return o.yzxy; } };
struct A_yzxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,0,2}; static constexpr const char*nm=".yzxz"; template<class O> static constexpr auto &&of(O &o) { return o.yzxz; } };
struct A_yzyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,1,0}; static constexpr const char*nm=".yzyx"; template<class O> static constexpr auto &&of(O &o) { return o.yzyx; } };
struct A_yzyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,1,1}; static constexpr const char*nm=".yzyy"; template<class O> static constexpr auto &&of(O &o) { return o.yzyy; } };
struct A_yzyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,1,2}; static constexpr const char*nm=".yzyz"; template<class O> static constexpr auto &&of(O &o) { return o.yzyz; } };
struct A_yzzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,2,0}; static constexpr const char*nm=".yzzx"; template<class O> static constexpr auto &&of(O &o) { return o.yzzx; } };
struct A_yzzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,2,1}; static constexpr const char*nm=".yzzy"; template<class O> static constexpr auto &&of(O &o) { return o.yzzy; } };
struct A_yzzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,2,2}; static constexpr const char*nm=".yzzz"; template<class O> static constexpr auto &&of(O &o) { return o.yzzz; } };
struct A_zxxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,0,0}; static constexpr const char*nm=".zxxx"; template<class O> static constexpr auto &&of(O &o) { return o.zxxx; } };
struct A_zxxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,0,1}; static constexpr const char*nm=".zxxy"; template<class O> static constexpr auto &&of(O &o) { return o.zxxy; } };
struct A_zxxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,0,2}; static constexpr const char*nm=".zxxz"; template<class O> static constexpr auto &&of(O &o) { return o.zxxz; } };
struct A_zxyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,1,0}; static constexpr const char*nm=".zxyx"; template<class O> static constexpr auto &&of(O &o) { return o.zxyx; } };
struct A_zxyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,1,1}; static constexpr const char*nm=".zxyy"; template<class O> static constexpr auto &&of(O &o) { return o.zxyy; } };
struct A_zxyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,1,2}; static constexpr const char*nm=".zxyz"; template<class O> static constexpr auto &&of(O &o) { return o.zxyz; } };
struct A_zxzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,2,0}; static constexpr const char*nm=".zxzx"; template<class O> static constexpr auto &&of(O &o) { return o.zxzx; } };
struct A_zxzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,2,1}; static constexpr const char*nm=".zxzy"; template<class O> static constexpr auto &&of(O &o) { return o.zxzy; } };
struct A_zxzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,2,2}; static constexpr const char*nm=".zxzz"; template<class O> static constexpr auto &&of(O &o) { return o.zxzz; } };
struct A_zyxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,0,0}; static constexpr const char*nm=".zyxx"; template<class O> static constexpr auto &&of(O &o) { return o.zyxx; } };
struct A_zyxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,0,1}; static constexpr const char*nm=".zyxy"; template<class O> static constexpr auto &&of(O &o) { return o.zyxy; } };
struct A_zyxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,0,2}; static constexpr const char*nm=".zyxz"; template<class O> static constexpr auto &&of(O &o) { return o.zyxz; } };
struct A_zyyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,1,0}; static constexpr const char*nm=".zyyx"; template<class O> static constexpr auto &&of(O &o) { return o.zyyx; } };
struct A_zyyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,1,1}; static constexpr const char*nm=".zyyy"; template<class O> static constexpr auto &&of(O &o) { return o.zyyy; } };
struct A_zyyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,1,2}; static constexpr const char*nm=".zyyz"; template<class O> static constexpr auto &&of(O &o) { return o.zyyz; } };
struct A_zyzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,2,0}; static constexpr const char*nm=".zyzx"; template<class O> static constexpr auto &&of(O &o) { return o.zyzx; } };
struct A_zyzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,2,1}; static constexpr const char*nm=".zyzy"; template<class O> static constexpr auto &&of(O &o) { return o.zyzy; } };
struct A_zyzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,2,2}; static constexpr const char*nm=".zyzz"; template<class O> static constexpr auto &&of(O &o) { return o.zyzz; } };
struct A_zzxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,0,0}; static constexpr const char*nm=".zzxx"; template<class O> static constexpr auto &&of(O &o) { return o.zzxx; } };
struct A_zzxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,0,1}; static constexpr const char*nm=".zzxy"; template<class O> static constexpr auto &&of(O &o) { return o.zzxy; } };
struct A_zzxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,0,2}; static constexpr const char*nm=".zzxz"; template<class O> static constexpr auto &&of(O &o) { return o.zzxz; } };
struct A_zzyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,1,0}; static constexpr const char*nm=".zzyx"; template<class O> static constexpr auto &&of(O &o) { return o.zzyx; } };
struct A_zzyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,1,1}; static constexpr const char*nm=".zzyy"; template<class O> static constexpr auto &&of(O &o) { return o.zzyy; } };
struct A_zzyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,1,2}; static constexpr const char*nm=".zzyz"; template<class O> static constexpr auto &&of(O &o) { return o.zzyz; } };
struct A_zzzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,2,0}; static constexpr const char*nm=".zzzx"; template<class O> static constexpr auto &&of(O &o) { return o.zzzx; } };
struct A_zzzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,2,1}; static constexpr const char*nm=".zzzy"; template<class O> static constexpr auto &&of(O &o) { return o.zzzy; } };
struct A_zzzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,2,2}; static constexpr const char*nm=".zzzz"; template<class O> static constexpr auto &&of(O &o) { return o.zzzz; } };
struct A_w { static constexpr int n=1; static constexpr bool wr=true; static constexpr int idx[4]={3}; static constexpr const char*nm=".w"; template<class O> static constexpr auto &&of(O &o) { return o.w; } };
struct A_xw { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={0,3}; static constexpr const char*nm=".xw"; template<class O> static constexpr auto &&of(O &o) { return o.xw; } };
struct A_yw { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={1,3}; static constexpr const char*nm=".yw"; template<class O> static constexpr auto &&of(O &o) { return o.yw; } };
struct A_zw { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={2,3}; static constexpr const char*nm=".zw"; template<class O> static constexpr auto &&of(O &o) { return o.zw; } };
struct A_wx { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={3,0}; static constexpr const char*nm=".wx"; template<class O> static constexpr auto &&of(O &o) { return o.wx; } };
struct A_wy { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={3,1}; static constexpr const char*nm=".wy"; template<class O> static constexpr auto &&of(O &o) { return o.wy; } };
struct A_wz { static constexpr int n=2; static constexpr bool wr=true; static constexpr int idx[4]={3,2}; static constexpr const char*nm=".wz"; template<class O> static constexpr auto &&of(O &o) { return o.wz; } };
struct A_ww { static constexpr int n=2; static constexpr bool wr=false; static constexpr int idx[4]={3,3}; static constexpr const char*nm=".ww"; template<class O> static constexpr auto &&of(O &o) { return o.ww; } };
struct A_xxw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,0,3}; static constexpr const char*nm=".xxw"; template<class O> static constexpr auto &&of(O &o) { return o.xxw; } };
struct A_xyw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,1,3}; static constexpr const char*nm=".xyw"; template<class O> static constexpr auto &&of(O &o) { return o.xyw; } };
struct A_xzw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,2,3}; static constexpr const char*nm=".xzw"; template<class O> static constexpr auto &&of(O &o) { return o.xzw; } };
struct A_xwx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,3,0}; static constexpr const char*nm=".xwx"; template<class O> static constexpr auto &&of(O &o) { return o.xwx; } };
struct A_xwy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,3,1}; static constexpr const char*nm=".xwy"; template<class O> static constexpr auto &&of(O &o) { return o.xwy; } };
struct A_xwz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={0,3,2}; static constexpr const char*nm=".xwz"; template<class O> static constexpr auto &&of(O &o) { return o.xwz; } };
struct A_xww { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={0,3,3}; static constexpr const char*nm=".xww"; template<class O> static constexpr auto &&of(O &o) { return o.xww; } };
struct A_yxw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,0,3}; static constexpr const char*nm=".yxw"; template<class O> static constexpr auto &&of(O &o) { return o.yxw; } };
struct A_yyw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,1,3}; static constexpr const char*nm=".yyw"; template<class O> static constexpr auto &&of(O &o) { return o.yyw; } };
struct A_yzw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,2,3}; static constexpr const char*nm=".yzw"; template<class O> static constexpr auto &&of(O &o) { return o.yzw; } };
struct A_ywx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,3,0}; static constexpr const char*nm=".ywx"; template<class O> static constexpr auto &&of(O &o) { return o.ywx; } };
struct A_ywy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,3,1}; static constexpr const char*nm=".ywy"; template<class O> static constexpr auto &&of(O &o) { return o.ywy; } };
struct A_ywz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={1,3,2}; static constexpr const char*nm=".ywz"; template<class O> static constexpr auto &&of(O &o) { return o.ywz; } };
struct A_yww { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={1,3,3}; static constexpr const char*nm=".yww"; template<class O> static constexpr auto &&of(O &o) { return o.yww; } };
struct A_zxw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,0,3}; static constexpr const char*nm=".zxw"; template<class O> static constexpr auto &&of(O &o) { return o.zxw; } };
struct A_zyw { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,1,3}; static constexpr const char*nm=".zyw"; template<class O> static constexpr auto &&of(O &o) { return o.zyw; } };
struct A_zzw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,2,3}; static constexpr const char*nm=".zzw"; template<class O> static constexpr auto &&of(O &o) { return o.zzw; } };
struct A_zwx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,3,0}; static constexpr const char*nm=".zwx"; template<class O> static constexpr auto &&of(O &o) { return o.zwx; } };
struct A_zwy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={2,3,1}; static constexpr const char*nm=".zwy"; template<class O> static constexpr auto &&of(O &o) { return o.zwy; } };
struct A_zwz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,3,2}; static constexpr const char*nm=".zwz"; template<class O> static constexpr auto &&of(O &o) { return o.zwz; } };
struct A_zww { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={2,3,3}; static constexpr const char*nm=".zww"; template<class O> static constexpr auto &&of(O &o) { return o.zww; } };
struct A_wxx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,0,0}; static constexpr const char*nm=".wxx"; template<class O> static constexpr auto &&of(O &o) { return o.wxx; } };
struct A_wxy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,0,1}; static constexpr const char*nm=".wxy"; template<class O> static constexpr auto &&of(O &o) { return o.wxy; } };
struct A_wxz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,0,2}; static constexpr const char*nm=".wxz"; template<class O> static constexpr auto &&of(O &o) { return o.wxz; } };
struct A_wxw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,0,3}; static constexpr const char*nm=".wxw"; template<class O> static constexpr auto &&of(O &o) { return o.wxw; } };
struct A_wyx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,1,0}; static constexpr const char*nm=".wyx"; template<class O> static constexpr auto &&of(O &o) { return o.wyx; } };
struct A_wyy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,1,1}; static constexpr const char*nm=".wyy"; template<class O> static constexpr auto &&of(O &o) { return o.wyy; } };
struct A_wyz { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,1,2}; static constexpr const char*nm=".wyz"; template<class O> static constexpr auto &&of(O &o) { return o.wyz; } };
struct A_wyw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,1,3}; static constexpr const char*nm=".wyw"; template<class O> static constexpr auto &&of(O &o) { return o.wyw; } };
struct A_wzx { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,2,0}; static constexpr const char*nm=".wzx"; template<class O> static constexpr auto &&of(O &o) { return o.wzx; } };
struct A_wzy { static constexpr int n=3; static constexpr bool wr=true; static constexpr int idx[4]={3,2,1}; static constexpr const char*nm=".wzy"; template<class O> static constexpr auto &&of(O &o) { return o.wzy; } };
struct A_wzz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,2,2}; static constexpr const char*nm=".wzz"; template<class O> static constexpr auto &&of(O &o) { return o.wzz; } };
struct A_wzw { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,2,3}; static constexpr const char*nm=".wzw"; template<class O> static constexpr auto &&of(O &o) { return o.wzw; } };
struct A_wwx { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,3,0}; static constexpr const char*nm=".wwx"; template<class O> static constexpr auto &&of(O &o) { return o.wwx; } };
struct A_wwy { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,3,1}; static constexpr const char*nm=".wwy"; template<class O> static constexpr auto &&of(O &o) { return o.wwy; } };
struct A_wwz { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,3,2}; static constexpr const char*nm=".wwz"; template<class O> static constexpr auto &&of(O &o) { return o.wwz; } };
struct A_www { static constexpr int n=3; static constexpr bool wr=false; static constexpr int idx[4]={3,3,3}; static constexpr const char*nm=".www"; template<class O> static constexpr auto &&of(O &o) { return o.www; } };
struct A_xxxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,0,3}; static constexpr const char*nm=".xxxw"; template<class O> static constexpr auto &&of(O &o) { return o.xxxw; } };
struct A_xxyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,1,3}; static constexpr const char*nm=".xxyw"; template<class O> static constexpr auto &&of(O &o) { return o.xxyw; } };
struct A_xxzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,2,3}; static constexpr const char*nm=".xxzw"; template<class O> static constexpr auto &&of(O &o) { return o.xxzw; } };
struct A_xxwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,3,0}; static constexpr const char*nm=".xxwx"; template<class O> static constexpr auto &&of(O &o) { return o.xxwx; } };
struct A_xxwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,3,1}; static constexpr const char*nm=".xxwy"; template<class O> static constexpr auto &&of(O &o) { return o.xxwy; } };
struct A_xxwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,3,2}; static constexpr const char*nm=".xxwz"; template<class O> static constexpr auto &&of(O &o) { return o.xxwz; } };
struct A_xxww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,0,3,3}; static constexpr const char*nm=".xxww"; template<class O> static constexpr auto &&of(O &o) { return o.xxww; } };
struct A_xyxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,0,3}; static constexpr const char*nm=".xyxw"; template<class O> static constexpr auto &&of(O &o) { return o.xyxw; } };
struct A_xyyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,1,3}; static constexpr const char*nm=".xyyw"; template<class O> static constexpr auto &&of(O &o) { return o.xyyw; } };
struct A_xyzw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,1,2,3}; static constexpr const char*nm=".xyzw"; template<class O> static constexpr auto &&of(O &o) { return o.xyzw; } };
struct A_xywx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,3,0}; static constexpr const char*nm=".xywx"; template<class O> static constexpr auto &&of(O &o) { return o.xywx; } };
struct A_xywy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,3,1}; static constexpr const char*nm=".xywy"; template<class O> static constexpr auto &&of(O &o) { return o.xywy; } };
struct A_xywz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,1,3,2}; static constexpr const char*nm=".xywz"; template<class O> static constexpr auto &&of(O &o) { return o.xywz; } };
struct A_xyww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,1,3,3}; static constexpr const char*nm=".xyww"; template<class O> static constexpr auto &&of(O &o) { return o.xyww; } };
struct A_xzxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,0,3}; static constexpr const char*nm=".xzxw"; template<class O> static constexpr auto &&of(O &o) { return o.xzxw; } };
struct A_xzyw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,2,1,3}; static constexpr const char*nm=".xzyw"; template<class O> static constexpr auto &&of(O &o) { return o.xzyw; } };
struct A_xzzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,2,3}; static constexpr const char*nm=".xzzw"; template<class O> static constexpr auto &&of(O &o) { return o.xzzw; } };
struct A_xzwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,3,0}; static constexpr const char*nm=".xzwx"; template<class O> static constexpr auto &&of(O &o) { return o.xzwx; } };
struct A_xzwy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,2,3,1}; static constexpr const char*nm=".xzwy"; template<class O> static constexpr auto &&of(O &o) { return o.xzwy; } };
struct A_xzwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,3,2}; static constexpr const char*nm=".xzwz"; template<class O> static constexpr auto &&of(O &o) { return o.xzwz; } };
struct A_xzww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,2,3,3}; static constexpr const char*nm=".xzww"; template<class O> static constexpr auto &&of(O &o) { return o.xzww; } };
struct A_xwxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,0,0}; static constexpr const char*nm=".xwxx"; template<class O> static constexpr auto &&of(O &o) { return o.xwxx; } };
struct A_xwxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,0,1}; static constexpr const char*nm=".xwxy"; template<class O> static constexpr auto &&of(O &o) { return o.xwxy; } };
struct A_xwxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,0,2}; static constexpr const char*nm=".xwxz"; template<class O> static constexpr auto &&of(O &o) { return o.xwxz; } };
struct A_xwxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,0,3}; static constexpr const char*nm=".xwxw"; template<class O> static constexpr auto &&of(O &o) { return o.xwxw; } };
struct A_xwyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,1,0}; static constexpr const char*nm=".xwyx"; template<class O> static constexpr auto &&of(O &o) { return o.xwyx; } };
struct A_xwyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,1,1}; static constexpr const char*nm=".xwyy"; template<class O> static constexpr auto &&of(O &o) { return o.xwyy; } };
struct A_xwyz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,3,1,2}; static constexpr const char*nm=".xwyz"; template<class O> static constexpr auto &&of(O &o) { return o.xwyz; } };
struct A_xwyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,1,3}; static constexpr const char*nm=".xwyw"; template<class O> static constexpr auto &&of(O &o) { return o.xwyw; } };
struct A_xwzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,2,0}; static constexpr const char*nm=".xwzx"; template<class O> static constexpr auto &&of(O &o) { return o.xwzx; } };
struct A_xwzy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={0,3,2,1}; static constexpr const char*nm=".xwzy"; template<class O> static constexpr auto &&of(O &o) { return o.xwzy; } };
struct A_xwzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,2,2}; static constexpr const char*nm=".xwzz"; template<class O> static constexpr auto &&of(O &o) { return o.xwzz; } };
struct A_xwzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,2,3}; static constexpr const char*nm=".xwzw"; template<class O> static constexpr auto &&of(O &o) { return o.xwzw; } };
struct A_xwwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,3,0}; static constexpr const char*nm=".xwwx"; template<class O> static constexpr auto &&of(O &o) { return o.xwwx; } };
struct A_xwwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,3,1}; static constexpr const char*nm=".xwwy"; template<class O> static constexpr auto &&of(O &o) { return o.xwwy; } };
struct A_xwwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,3,2}; static constexpr const char*nm=".xwwz"; template<class O> static constexpr auto &&of(O &o) { return o.xwwz; } };
struct A_xwww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={0,3,3,3}; static constexpr const char*nm=".xwww"; template<class O> static constexpr auto &&of(O &o) { return o.xwww; } };
struct A_yxxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,0,3}; static constexpr const char*nm=".yxxw"; template<class O> static constexpr auto &&of(O &o) { return o.yxxw; } };
struct A_yxyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,1,3}; static constexpr const char*nm=".yxyw"; template<class O> static constexpr auto &&of(O &o) { return o.yxyw; } };
struct A_yxzw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,0,2,3}; static constexpr const char*nm=".yxzw"; template<class O> static constexpr auto &&of(O &o) { return o.yxzw; } };
struct A_yxwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,3,0}; static constexpr const char*nm=".yxwx"; template<class O> static constexpr auto &&of(O &o) { return o.yxwx; } };
struct A_yxwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,3,1}; static constexpr const char*nm=".yxwy"; template<class O> static constexpr auto &&of(O &o) { return o.yxwy; } };
struct A_yxwz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,0,3,2}; static constexpr const char*nm=".yxwz"; template<class O> static constexpr auto &&of(O &o) { return o.yxwz; } };
struct A_yxww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,0,3,3}; static constexpr const char*nm=".yxww"; template<class O> static constexpr auto &&of(O &o) { return o.yxww; } };
struct A_yyxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,0,3}; static constexpr const char*nm=".yyxw"; template<class O> static constexpr auto &&of(O &o) { return o.yyxw; } };
struct A_yyyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,1,3}; static constexpr const char*nm=".yyyw"; template<class O> static constexpr auto &&of(O &o) { return o.yyyw; } };
struct A_yyzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,2,3}; static constexpr const char*nm=".yyzw"; template<class O> static constexpr auto &&of(O &o) { return o.yyzw; } };
struct A_yywx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,3,0}; static constexpr const char*nm=".yywx"; template<class O> static constexpr auto &&of(O &o) { return o.yywx; } };
struct A_yywy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,3,1}; static constexpr const char*nm=".yywy"; template<class O> static constexpr auto &&of(O &o) { return o.yywy; } };
struct A_yywz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,3,2}; static constexpr const char*nm=".yywz"; template<class O> static constexpr auto &&of(O &o) { return o.yywz; } };
struct A_yyww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,1,3,3}; static constexpr const char*nm=".yyww"; template<class O> static constexpr auto &&of(O &o) { return o.yyww; } };
struct A_yzxw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,2,0,3}; static constexpr const char*nm=".yzxw"; template<class O> static constexpr auto &&of(O &o) { return o.yzxw; } };
struct A_yzyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,1,3}; static constexpr const char*nm=".yzyw"; template<class O> static constexpr auto &&of(O &o) { return o.yzyw; } };
struct A_yzzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,2,3}; static constexpr const char*nm=".yzzw"; template<class O> static constexpr auto &&of(O &o) { return o.yzzw; } };
struct A_yzwx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,2,3,0}; static constexpr const char*nm=".yzwx"; template<class O> static constexpr auto &&of(O &o) { return o.yzwx; } };
struct A_yzwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,3,1}; static constexpr const char*nm=".yzwy"; template<class O> static constexpr auto &&of(O &o) { return o.yzwy; } };
struct A_yzwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,3,2}; static constexpr const char*nm=".yzwz"; template<class O> static constexpr auto &&of(O &o) { return o.yzwz; } };
struct A_yzww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,2,3,3}; static constexpr const char*nm=".yzww"; template<class O> static constexpr auto &&of(O &o) { return o.yzww; } };
struct A_ywxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,0,0}; static constexpr const char*nm=".ywxx"; template<class O> static constexpr auto &&of(O &o) { return o.ywxx; } };
struct A_ywxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,0,1}; static constexpr const char*nm=".ywxy"; template<class O> static constexpr auto &&of(O &o) { return o.ywxy; } };
struct A_ywxz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,3,0,2}; static constexpr const char*nm=".ywxz"; template<class O> static constexpr auto &&of(O &o) { return o.ywxz; } };
struct A_ywxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,0,3}; static constexpr const char*nm=".ywxw"; template<class O> static constexpr auto &&of(O &o) { return o.ywxw; } };
struct A_ywyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,1,0}; static constexpr const char*nm=".ywyx"; template<class O> static constexpr auto &&of(O &o) { return o.ywyx; } };
struct A_ywyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,1,1}; static constexpr const char*nm=".ywyy"; template<class O> static constexpr auto &&of(O &o) { return o.ywyy; } };
struct A_ywyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,1,2}; static constexpr const char*nm=".ywyz"; template<class O> static constexpr auto &&of(O &o) { return o.ywyz; } };
struct A_ywyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,1,3}; static constexpr const char*nm=".ywyw"; template<class O> static constexpr auto &&of(O &o) { return o.ywyw; } };
struct A_ywzx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={1,3,2,0}; static constexpr const char*nm=".ywzx"; template<class O> static constexpr auto &&of(O &o) { return o.ywzx; } };
struct A_ywzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,2,1}; static constexpr const char*nm=".ywzy"; template<class O> static constexpr auto &&of(O &o) { return o.ywzy; } };
struct A_ywzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,2,2}; static constexpr const char*nm=".ywzz"; template<class O> static constexpr auto &&of(O &o) { return o.ywzz; } };
struct A_ywzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,2,3}; static constexpr const char*nm=".ywzw"; template<class O> static constexpr auto &&of(O &o) { return o.ywzw; } };
struct A_ywwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,3,0}; static constexpr const char*nm=".ywwx"; template<class O> static constexpr auto &&of(O &o) { return o.ywwx; } };
struct A_ywwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,3,1}; static constexpr const char*nm=".ywwy"; template<class O> static constexpr auto &&of(O &o) { return o.ywwy; } };
struct A_ywwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,3,2}; static constexpr const char*nm=".ywwz"; template<class O> static constexpr auto &&of(O &o) { return o.ywwz; } };
struct A_ywww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={1,3,3,3}; static constexpr const char*nm=".ywww"; template<class O> static constexpr auto &&of(O &o) { return o.ywww; } };
struct A_zxxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,0,3}; static constexpr const char*nm=".zxxw"; template<class O> static constexpr auto &&of(O &o) { return o.zxxw; } };
struct A_zxyw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,0,1,3}; static constexpr const char*nm=".zxyw"; template<class O> static constexpr auto &&of(O &o) { return o.zxyw; } };
struct A_zxzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,2,3}; static constexpr const char*nm=".zxzw"; template<class O> static constexpr auto &&of(O &o) { return o.zxzw; } };
struct A_zxwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,3,0}; static constexpr const char*nm=".zxwx"; template<class O> static constexpr auto &&of(O &o) { return o.zxwx; } };
struct A_zxwy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,0,3,1}; static constexpr const char*nm=".zxwy"; template<class O> static constexpr auto &&of(O &o) { return o.zxwy; } };
struct A_zxwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,3,2}; static constexpr const char*nm=".zxwz"; template<class O> static constexpr auto &&of(O &o) { return o.zxwz; } };
struct A_zxww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,0,3,3}; static constexpr const char*nm=".zxww"; template<class O> static constexpr auto &&of(O &o) { return o.zxww; } };
struct A_zyxw { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,1,0,3}; static constexpr const char*nm=".zyxw"; template<class O> static constexpr auto &&of(O &o) { return o.zyxw; } };
struct A_zyyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,1,3}; static constexpr const char*nm=".zyyw"; template<class O> static constexpr auto &&of(O &o) { return o.zyyw; } };
struct A_zyzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,2,3}; static constexpr const char*nm=".zyzw"; template<class O> static constexpr auto &&of(O &o) { return o.zyzw; } };
struct A_zywx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,1,3,0}; static constexpr const char*nm=".zywx"; template<class O> static constexpr auto &&of(O &o) { return o.zywx; } };
struct A_zywy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,3,1}; static constexpr const char*nm=".zywy"; template<class O> static constexpr auto &&of(O &o) { return o.zywy; } };
struct A_zywz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,3,2}; static constexpr const char*nm=".zywz"; template<class O> static constexpr auto &&of(O &o) { return o.zywz; } };
struct A_zyww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,1,3,3}; static constexpr const char*nm=".zyww"; template<class O> static constexpr auto &&of(O &o) { return o.zyww; } };
struct A_zzxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,0,3}; static constexpr const char*nm=".zzxw"; template<class O> static constexpr auto &&of(O &o) { return o.zzxw; } };
struct A_zzyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,1,3}; static constexpr const char*nm=".zzyw"; template<class O> static constexpr auto &&of(O &o) { return o.zzyw; } };
struct A_zzzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,2,3}; static constexpr const char*nm=".zzzw"; template<class O> static constexpr auto &&of(O &o) { return o.zzzw; } };
struct A_zzwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,3,0}; static constexpr const char*nm=".zzwx"; template<class O> static constexpr auto &&of(O &o) { return o.zzwx; } };
struct A_zzwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,3,1}; static constexpr const char*nm=".zzwy"; template<class O> static constexpr auto &&of(O &o) { return o.zzwy; } };
struct A_zzwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,3,2}; static constexpr const char*nm=".zzwz"; template<class O> static constexpr auto &&of(O &o) { return o.zzwz; } };
struct A_zzww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,2,3,3}; static constexpr const char*nm=".zzww"; template<class O> static constexpr auto &&of(O &o) { return o.zzww; } };
struct A_zwxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,0,0}; static constexpr const char*nm=".zwxx"; template<class O> static constexpr auto &&of(O &o) { return o.zwxx; } };
struct A_zwxy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,3,0,1}; static constexpr const char*nm=".zwxy"; template<class O> static constexpr auto &&of(O &o) { return o.zwxy; } };
struct A_zwxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,0,2}; static constexpr const char*nm=".zwxz"; template<class O> static constexpr auto &&of(O &o) { return o.zwxz; } };
struct A_zwxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,0,3}; static constexpr const char*nm=".zwxw"; template<class O> static constexpr auto &&of(O &o) { return o.zwxw; } };
struct A_zwyx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={2,3,1,0}; static constexpr const char*nm=".zwyx"; template<class O> static constexpr auto &&of(O &o) { return o.zwyx; } };
struct A_zwyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,1,1}; static constexpr const char*nm=".zwyy"; template<class O> static constexpr auto &&of(O &o) { return o.zwyy; } };
struct A_zwyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,1,2}; static constexpr const char*nm=".zwyz"; template<class O> static constexpr auto &&of(O &o) { return o.zwyz; } };
struct A_zwyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,1,3}; static constexpr const char*nm=".zwyw"; template<class O> static constexpr auto &&of(O &o) { return o.zwyw; } };
struct A_zwzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,2,0}; static constexpr const char*nm=".zwzx"; template<class O> static constexpr auto &&of(O &o) { return o.zwzx; } };
struct A_zwzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,2,1}; static constexpr const char*nm=".zwzy"; template<class O> static constexpr auto &&of(O &o) { return o.zwzy; } };
struct A_zwzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,2,2}; static constexpr const char*nm=".zwzz"; template<class O> static constexpr auto &&of(O &o) { return o.zwzz; } };
struct A_zwzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,2,3}; static constexpr const char*nm=".zwzw"; template<class O> static constexpr auto &&of(O &o) { return o.zwzw; } };
struct A_zwwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,3,0}; static constexpr const char*nm=".zwwx"; template<class O> static constexpr auto &&of(O &o) { return o.zwwx; } };
struct A_zwwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,3,1}; static constexpr const char*nm=".zwwy"; template<class O> static constexpr auto &&of(O &o) { return o.zwwy; } };
struct A_zwwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,3,2}; static constexpr const char*nm=".zwwz"; template<class O> static constexpr auto &&of(O &o) { return o.zwwz; } };
struct A_zwww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={2,3,3,3}; static constexpr const char*nm=".zwww"; template<class O> static constexpr auto &&of(O &o) { return o.zwww; } };
struct A_wxxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,0,0}; static constexpr const char*nm=".wxxx"; template<class O> static constexpr auto &&of(O &o) { return o.wxxx; } };
struct A_wxxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,0,1}; static constexpr const char*nm=".wxxy"; template<class O> static constexpr auto &&of(O &o) { return o.wxxy; } };
struct A_wxxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,0,2}; static constexpr const char*nm=".wxxz"; template<class O> static constexpr auto &&of(O &o) { return o.wxxz; } };
struct A_wxxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,0,3}; static constexpr const char*nm=".wxxw"; template<class O> static constexpr auto &&of(O &o) { return o.wxxw; } };
struct A_wxyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,1,0}; static constexpr const char*nm=".wxyx"; template<class O> static constexpr auto &&of(O &o) { return o.wxyx; } };
struct A_wxyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,1,1}; static constexpr const char*nm=".wxyy"; template<class O> static constexpr auto &&of(O &o) { return o.wxyy; } };
struct A_wxyz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,0,1,2}; static constexpr const char*nm=".wxyz"; template<class O> static constexpr auto &&of(O &o) { return o.wxyz; } };
struct A_wxyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,1,3}; static constexpr const char*nm=".wxyw"; template<class O> static constexpr auto &&of(O &o) { return o.wxyw; } };
struct A_wxzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,2,0}; static constexpr const char*nm=".wxzx"; template<class O> static constexpr auto &&of(O &o) { return o.wxzx; } };
struct A_wxzy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,0,2,1}; static constexpr const char*nm=".wxzy"; template<class O> static constexpr auto &&of(O &o) { return o.wxzy; } };
struct A_wxzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,2,2}; static constexpr const char*nm=".wxzz"; template<class O> static constexpr auto &&of(O &o) { return o.wxzz; } };
struct A_wxzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,2,3}; static constexpr const char*nm=".wxzw"; template<class O> static constexpr auto &&of(O &o) { return o.wxzw; } };
struct A_wxwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,3,0}; static constexpr const char*nm=".wxwx"; template<class O> static constexpr auto &&of(O &o) { return o.wxwx; } };
struct A_wxwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,3,1}; static constexpr const char*nm=".wxwy"; template<class O> static constexpr auto &&of(O &o) { return o.wxwy; } };
struct A_wxwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,3,2}; static constexpr const char*nm=".wxwz"; template<class O> static constexpr auto &&of(O &o) { return o.wxwz; } };
struct A_wxww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,0,3,3}; static constexpr const char*nm=".wxww"; template<class O> static constexpr auto &&of(O &o) { return o.wxww; } };
struct A_wyxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,0,0}; static constexpr const char*nm=".wyxx"; template<class O> static constexpr auto &&of(O &o) { return o.wyxx; } };
struct A_wyxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,0,1}; static constexpr const char*nm=".wyxy"; template<class O> static constexpr auto &&of(O &o) { return o.wyxy; } };
struct A_wyxz { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,1,0,2}; static constexpr const char*nm=".wyxz"; template<class O> static constexpr auto &&of(O &o) { return o.wyxz; } };
struct A_wyxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,0,3}; static constexpr const char*nm=".wyxw"; template<class O> static constexpr auto &&of(O &o) { return o.wyxw; } };
struct A_wyyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,1,0}; static constexpr const char*nm=".wyyx"; template<class O> static constexpr auto &&of(O &o) { return o.wyyx; } };
struct A_wyyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,1,1}; static constexpr const char*nm=".wyyy"; template<class O> static constexpr auto &&of(O &o) { return o.wyyy; } };
struct A_wyyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,1,2}; static constexpr const char*nm=".wyyz"; template<class O> static constexpr auto &&of(O &o) { return o.wyyz; } };
struct A_wyyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,1,3}; static constexpr const char*nm=".wyyw"; template<class O> static constexpr auto &&of(O &o) { return o.wyyw; } };
struct A_wyzx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,1,2,0}; static constexpr const char*nm=".wyzx"; template<class O> static constexpr auto &&of(O &o) { return o.wyzx; } };
struct A_wyzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,2,1}; static constexpr const char*nm=".wyzy"; template<class O> static constexpr auto &&of(O &o) { return o.wyzy; } };
struct A_wyzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,2,2}; static constexpr const char*nm=".wyzz"; template<class O> static constexpr auto &&of(O &o) { return o.wyzz; } };
struct A_wyzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,2,3}; static constexpr const char*nm=".wyzw"; template<class O> static constexpr auto &&of(O &o) { return o.wyzw; } };
struct A_wywx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,3,0}; static constexpr const char*nm=".wywx"; template<class O> static constexpr auto &&of(O &o) { return o.wywx; } };
struct A_wywy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,3,1}; static constexpr const char*nm=".wywy"; template<class O> static constexpr auto &&of(O &o) { return o.wywy; } };
struct A_wywz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,3,2}; static constexpr const char*nm=".wywz"; template<class O> static constexpr auto &&of(O &o) { return o.wywz; } };
struct A_wyww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,1,3,3}; static constexpr const char*nm=".wyww"; template<class O> static constexpr auto &&of(O &o) { return o.wyww; } };
struct A_wzxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,0,0}; static constexpr const char*nm=".wzxx"; template<class O> static constexpr auto &&of(O &o) { return o.wzxx; } };
struct A_wzxy { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,2,0,1}; static constexpr const char*nm=".wzxy"; template<class O> static constexpr auto &&of(O &o) { return o.wzxy; } };
struct A_wzxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,0,2}; static constexpr const char*nm=".wzxz"; template<class O> static constexpr auto &&of(O &o) { return o.wzxz; } };
struct A_wzxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,0,3}; static constexpr const char*nm=".wzxw"; template<class O> static constexpr auto &&of(O &o) { return o.wzxw; } };
struct A_wzyx { static constexpr int n=4; static constexpr bool wr=true; static constexpr int idx[4]={3,2,1,0}; static constexpr const char*nm=".wzyx"; template<class O> static constexpr auto &&of(O &o) { return o.wzyx; } };
struct A_wzyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,1,1}; static constexpr const char*nm=".wzyy"; template<class O> static constexpr auto &&of(O &o) { return o.wzyy; } };
struct A_wzyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,1,2}; static constexpr const char*nm=".wzyz"; template<class O> static constexpr auto &&of(O &o) { return o.wzyz; } };
struct A_wzyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,1,3}; static constexpr const char*nm=".wzyw"; template<class O> static constexpr auto &&of(O &o) { return o.wzyw; } };
struct A_wzzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,2,0}; static constexpr const char*nm=".wzzx"; template<class O> static constexpr auto &&of(O &o) { return o.wzzx; } };
struct A_wzzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,2,1}; static constexpr const char*nm=".wzzy"; template<class O> static constexpr auto &&of(O &o) { return o.wzzy; } };
struct A_wzzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,2,2}; static constexpr const char*nm=".wzzz"; template<class O> static constexpr auto &&of(O &o) { return o.wzzz; } };
struct A_wzzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,2,3}; static constexpr const char*nm=".wzzw"; template<class O> static constexpr auto &&of(O &o) { return o.wzzw; } };
struct A_wzwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,3,0}; static constexpr const char*nm=".wzwx"; template<class O> static constexpr auto &&of(O &o) { return o.wzwx; } };
struct A_wzwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,3,1}; static constexpr const char*nm=".wzwy"; template<class O> static constexpr auto &&of(O &o) { return o.wzwy; } };
struct A_wzwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,3,2}; static constexpr const char*nm=".wzwz"; template<class O> static constexpr auto &&of(O &o) { return o.wzwz; } };
struct A_wzww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,2,3,3}; static constexpr const char*nm=".wzww"; template<class O> static constexpr auto &&of(O &o) { return o.wzww; } };
struct A_wwxx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,0,0}; static constexpr const char*nm=".wwxx"; template<class O> static constexpr auto &&of(O &o) { return o.wwxx; } };
struct A_wwxy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,0,1}; static constexpr const char*nm=".wwxy"; template<class O> static constexpr auto &&of(O &o) { return o.wwxy; } };
struct A_wwxz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,0,2}; static constexpr const char*nm=".wwxz"; template<class O> static constexpr auto &&of(O &o) { return o.wwxz; } };
struct A_wwxw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,0,3}; static constexpr const char*nm=".wwxw"; template<class O> static constexpr auto &&of(O &o) { return o.wwxw; } };
struct A_wwyx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,1,0}; static constexpr const char*nm=".wwyx"; template<class O> static constexpr auto &&of(O &o) { return o.wwyx; } };
struct A_wwyy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,1,1}; static constexpr const char*nm=".wwyy"; template<class O> static constexpr auto &&of(O &o) { return o.wwyy; } };
struct A_wwyz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,1,2}; static constexpr const char*nm=".wwyz"; template<class O> static constexpr auto &&of(O &o) { return o.wwyz; } };
struct A_wwyw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,1,3}; static constexpr const char*nm=".wwyw"; template<class O> static constexpr auto &&of(O &o) { return o.wwyw; } };
struct A_wwzx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,2,0}; static constexpr const char*nm=".wwzx"; template<class O> static constexpr auto &&of(O &o) { return o.wwzx; } };
struct A_wwzy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,2,1}; static constexpr const char*nm=".wwzy"; template<class O> static constexpr auto &&of(O &o) { return o.wwzy; } };
struct A_wwzz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,2,2}; static constexpr const char*nm=".wwzz"; template<class O> static constexpr auto &&of(O &o) { return o.wwzz; } };
struct A_wwzw { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,2,3}; static constexpr const char*nm=".wwzw"; template<class O> static constexpr auto &&of(O &o) { return o.wwzw; } };
struct A_wwwx { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,3,0}; static constexpr const char*nm=".wwwx"; template<class O> static constexpr auto &&of(O &o) { return o.wwwx; } };
struct A_wwwy { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,3,1}; static constexpr const char*nm=".wwwy"; template<class O> static constexpr auto &&of(O &o) { return o.wwwy; } };
struct A_wwwz { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,3,2}; static constexpr const char*nm=".wwwz"; template<class O> static constexpr auto &&of(O &o) { return o.wwwz; } };
struct A_wwww { static constexpr int n=4; static constexpr bool wr=false; static constexpr int idx[4]={3,3,3,3}; static constexpr const char*nm=".wwww"; template<class O> static constexpr auto &&of(O &o) { return o.wwww; } };
template<template<class> class Do, class Ctx> void each_swizzle_1(Ctx &c) {
  Do<A_x>::go(c);
  Do<A_xx>::go(c);
  Do<A_xxx>::go(c);
  Do<A_xxxx>::go(c);
}
template<template<class> class Do, class Ctx> void each_swizzle_2(Ctx &c) {
  Do<A_x>::go(c);
  Do<A_y>::go(c);
  Do<A_xx>::go(c);
  Do<A_xy>::go(c);
  Do<A_yx>::go(c);
  Do<A_yy>::go(c);
  Do<A_xxx>::go(c);
  Do<A_xxy>::go(c);
  Do<A_xyx>::go(c);
  Do<A_xyy>::go(c);
  Do<A_yxx>::go(c);
  Do<A_yxy>::go(c);
  Do<A_yyx>::go(c);
  Do<A_yyy>::go(c);
  Do<A_xxxx>::go(c);
  Do<A_xxxy>::go(c);
  Do<A_xxyx>::go(c);
  Do<A_xxyy>::go(c);
  Do<A_xyxx>::go(c);
  Do<A_xyxy>::go(c);
  Do<A_xyyx>::go(c);
  Do<A_xyyy>::go(c);
  Do<A_yxxx>::go(c);
  Do<A_yxxy>::go(c);
  Do<A_yxyx>::go(c);
  Do<A_yxyy>::go(c);
  Do<A_yyxx>::go(c);
  Do<A_yyxy>::go(c);
  Do<A_yyyx>::go(c);
  Do<A_yyyy>::go(c);
}
template<template<class> class Do, class Ctx> void each_swizzle_3(Ctx &c) {
  Do<A_x>::go(c);
  Do<A_y>::go(c);
  Do<A_z>::go(c);
  Do<A_xx>::go(c);
  Do<A_xy>::go(c);
  Do<A_xz>::go(c);
  Do<A_yx>::go(c);
  Do<A_yy>::go(c);
  Do<A_yz>::go(c);
  Do<A_zx>::go(c);
  Do<A_zy>::go(c);
  Do<A_zz>::go(c);
  Do<A_xxx>::go(c);
  Do<A_xxy>::go(c);
  Do<A_xxz>::go(c);
  Do<A_xyx>::go(c);
  Do<A_xyy>::go(c);
  Do<A_xyz>::go(c);
  Do<A_xzx>::go(c);
  Do<A_xzy>::go(c);
  Do<A_xzz>::go(c);
  Do<A_yxx>::go(c);
  Do<A_yxy>::go(c);
  Do<A_yxz>::go(c);
  Do<A_yyx>::go(c);
  Do<A_yyy>::go(c);
  Do<A_yyz>::go(c);
  Do<A_yzx>::go(c);
  Do<A_yzy>::go(c);
  Do<A_yzz>::go(c);
  Do<A_zxx>::go(c);
  Do<A_zxy>::go(c);
  Do<A_zxz>::go(c);
  Do<A_zyx>::go(c);
  Do<A_zyy>::go(c);
  Do<A_zyz>::go(c);
  Do<A_zzx>::go(c);
  Do<A_zzy>::go(c);
  Do<A_zzz>::go(c);
  Do<A_xxxx>::go(c);
  Do<A_xxxy>::go(c);
  Do<A_xxxz>::go(c);
  Do<A_xxyx>::go(c);
  Do<A_xxyy>::go(c);
  Do<A_xxyz>::go(c);
  Do<A_xxzx>::go(c);
  Do<A_xxzy>::go(c);
  Do<A_xxzz>::go(c);
  Do<A_xyxx>::go(c);
  Do<A_xyxy>::go(c);
  Do<A_xyxz>::go(c);
  Do<A_xyyx>::go(c);
  Do<A_xyyy>::go(c);
  Do<A_xyyz>::go(c);
  Do<A_xyzx>::go(c);
  Do<A_xyzy>::go(c);
  Do<A_xyzz>::go(c);
  Do<A_xzxx>::go(c);
  Do<A_xzxy>::go(c);
  Do<A_xzxz>::go(c);
  Do<A_xzyx>::go(c);
  Do<A_xzyy>::go(c);
  Do<A_xzyz>::go(c);
  Do<A_xzzx>::go(c);
  Do<A_xzzy>::go(c);
  Do<A_xzzz>::go(c);
  Do<A_yxxx>::go(c);
  Do<A_yxxy>::go(c);
  Do<A_yxxz>::go(c);
  Do<A_yxyx>::go(c);
  Do<A_yxyy>::go(c);
  Do<A_yxyz>::go(c);
  Do<A_yxzx>::go(c);
  Do<A_yxzy>::go(c);
  Do<A_yxzz>::go(c);
  Do<A_yyxx>::go(c);
  Do<A_yyxy>::go(c);
  Do<A_yyxz>::go(c);
  Do<A_yyyx>::go(c);
  Do<A_yyyy>::go(c);
  Do<A_yyyz>::go(c);
  Do<A_yyzx>::go(c);
  Do<A_yyzy>::go(c);
  Do<A_yyzz>::go(c);
  Do<A_yzxx>::go(c);
  Do<A_yzxy>::go(c);
  Do<A_yzxz>::go(c);
  Do<A_yzyx>::go(c);
  Do<A_yzyy>::go(c);
  Do<A_yzyz>::go(c);
  Do<A_yzzx>::go(c);
  Do<A_yzzy>::go(c);
  Do<A_yzzz>::go(c);
  Do<A_zxxx>::go(c);
  Do<A_zxxy>::go(c);
  Do<A_zxxz>::go(c);
  Do<A_zxyx>::go(c);
  Do<A_zxyy>::go(c);
  Do<A_zxyz>::go(c);
  Do<A_zxzx>::go(c);
  Do<A_zxzy>::go(c);
  Do<A_zxzz>::go(c);
  Do<A_zyxx>::go(c);
  Do<A_zyxy>::go(c);
  Do<A_zyxz>::go(c);
  Do<A_zyyx>::go(c);
  Do<A_zyyy>::go(c);
  Do<A_zyyz>::go(c);
  Do<A_zyzx>::go(c);
  Do<A_zyzy>::go(c);
  Do<A_zyzz>::go(c);
  Do<A_zzxx>::go(c);
  Do<A_zzxy>::go(c);
  Do<A_zzxz>::go(c);
  Do<A_zzyx>::go(c);
  Do<A_zzyy>::go(c);
  Do<A_zzyz>::go(c);
  Do<A_zzzx>::go(c);
  Do<A_zzzy>::go(c);
  Do<A_zzzz>::go(c);
}
template<template<class> class Do, class Ctx> void each_swizzle_4(Ctx &c) {
  Do<A_x>::go(c);
  Do<A_y>::go(c);
  Do<A_z>::go(c);
  Do<A_w>::go(c);
  Do<A_xx>::go(c);
  Do<A_xy>::go(c);
  Do<A_xz>::go(c);
  Do<A_xw>::go(c);
  Do<A_yx>::go(c);
  Do<A_yy>::go(c);
  Do<A_yz>::go(c);
  Do<A_yw>::go(c);
  Do<A_zx>::go(c);
  Do<A_zy>::go(c);
  Do<A_zz>::go(c);
  Do<A_zw>::go(c);
  Do<A_wx>::go(c);
  Do<A_wy>::go(c);
  Do<A_wz>::go(c);
  Do<A_ww>::go(c);
  Do<A_xxx>::go(c);
  Do<A_xxy>::go(c);
  Do<A_xxz>::go(c);
  Do<A_xxw>::go(c);
  Do<A_xyx>::go(c);
  Do<A_xyy>::go(c);
  Do<A_xyz>::go(c);
  Do<A_xyw>::go(c);
  Do<A_xzx>::go(c);
  Do<A_xzy>::go(c);
  Do<A_xzz>::go(c);
  Do<A_xzw>::go(c);
  Do<A_xwx>::go(c);
  Do<A_xwy>::go(c);
  Do<A_xwz>::go(c);
  Do<A_xww>::go(c);
  Do<A_yxx>::go(c);
  Do<A_yxy>::go(c);
  Do<A_yxz>::go(c);
  Do<A_yxw>::go(c);
  Do<A_yyx>::go(c);
  Do<A_yyy>::go(c);
  Do<A_yyz>::go(c);
  Do<A_yyw>::go(c);
  Do<A_yzx>::go(c);
  Do<A_yzy>::go(c);
  Do<A_yzz>::go(c);
  Do<A_yzw>::go(c);
  Do<A_ywx>::go(c);
  Do<A_ywy>::go(c);
  Do<A_ywz>::go(c);
  Do<A_yww>::go(c);
  Do<A_zxx>::go(c);
  Do<A_zxy>::go(c);
  Do<A_zxz>::go(c);
  Do<A_zxw>::go(c);
  Do<A_zyx>::go(c);
  Do<A_zyy>::go(c);
  Do<A_zyz>::go(c);
  Do<A_zyw>::go(c);
  Do<A_zzx>::go(c);
  Do<A_zzy>::go(c);
  Do<A_zzz>::go(c);
  Do<A_zzw>::go(c);
  Do<A_zwx>::go(c);
  Do<A_zwy>::go(c);
  Do<A_zwz>::go(c);
  Do<A_zww>::go(c);
  Do<A_wxx>::go(c);
  Do<A_wxy>::go(c);
  Do<A_wxz>::go(c);
  Do<A_wxw>::go(c);
  Do<A_wyx>::go(c);
  Do<A_wyy>::go(c);
  Do<A_wyz>::go(c);
  Do<A_wyw>::go(c);
  Do<A_wzx>::go(c);
  Do<A_wzy>::go(c);
  Do<A_wzz>::go(c);
  Do<A_wzw>::go(c);
  Do<A_wwx>::go(c);
  Do<A_wwy>::go(c);
  Do<A_wwz>::go(c);
  Do<A_www>::go(c);
  Do<A_xxxx>::go(c);
  Do<A_xxxy>::go(c);
  Do<A_xxxz>::go(c);
  Do<A_xxxw>::go(c);
  Do<A_xxyx>::go(c);
  Do<A_xxyy>::go(c);
  Do<A_xxyz>::go(c);
  Do<A_xxyw>::go(c);
  Do<A_xxzx>::go(c);
  Do<A_xxzy>::go(c);
  Do<A_xxzz>::go(c);
  Do<A_xxzw>::go(c);
  Do<A_xxwx>::go(c);
  Do<A_xxwy>::go(c);
  Do<A_xxwz>::go(c);
  Do<A_xxww>::go(c);
  Do<A_xyxx>::go(c);
  Do<A_xyxy>::go(c);
  Do<A_xyxz>::go(c);
  Do<A_xyxw>::go(c);
  Do<A_xyyx>::go(c);
  Do<A_xyyy>::go(c);
  Do<A_xyyz>::go(c);
  Do<A_xyyw>::go(c);
  Do<A_xyzx>::go(c);
  Do<A_xyzy>::go(c);
  Do<A_xyzz>::go(c);
  Do<A_xyzw>::go(c);
  Do<A_xywx>::go(c);
  Do<A_xywy>::go(c);
  Do<A_xywz>::go(c);
  Do<A_xyww>::go(c);
  Do<A_xzxx>::go(c);
  Do<A_xzxy>::go(c);
  Do<A_xzxz>::go(c);
  Do<A_xzxw>::go(c);
  Do<A_xzyx>::go(c);
  Do<A_xzyy>::go(c);
  Do<A_xzyz>::go(c);
  Do<A_xzyw>::go(c);
  Do<A_xzzx>::go(c);
  Do<A_xzzy>::go(c);
  Do<A_xzzz>::go(c);
  Do<A_xzzw>::go(c);
  Do<A_xzwx>::go(c);
  Do<A_xzwy>::go(c);
  Do<A_xzwz>::go(c);
  Do<A_xzww>::go(c);
  Do<A_xwxx>::go(c);
  Do<A_xwxy>::go(c);
  Do<A_xwxz>::go(c);
  Do<A_xwxw>::go(c);
  Do<A_xwyx>::go(c);
  Do<A_xwyy>::go(c);
  Do<A_xwyz>::go(c);
  Do<A_xwyw>::go(c);
  Do<A_xwzx>::go(c);
  Do<A_xwzy>::go(c);
  Do<A_xwzz>::go(c);
  Do<A_xwzw>::go(c);
  Do<A_xwwx>::go(c);
  Do<A_xwwy>::go(c);
  Do<A_xwwz>::go(c);
  Do<A_xwww>::go(c);
  Do<A_yxxx>::go(c);
  Do<A_yxxy>::go(c);
  Do<A_yxxz>::go(c);
  Do<A_yxxw>::go(c);
  Do<A_yxyx>::go(c);
  Do<A_yxyy>::go(c);
  Do<A_yxyz>::go(c);
  Do<A_yxyw>::go(c);
  Do<A_yxzx>::go(c);
  Do<A_yxzy>::go(c);
  Do<A_yxzz>::go(c);
  Do<A_yxzw>::go(c);
  Do<A_yxwx>::go(c);
  Do<A_yxwy>::go(c);
  Do<A_yxwz>::go(c);
  Do<A_yxww>::go(c);
  Do<A_yyxx>::go(c);
  Do<A_yyxy>::go(c);
  Do<A_yyxz>::go(c);
  Do<A_yyxw>::go(c);
  Do<A_yyyx>::go(c);
  Do<A_yyyy>::go(c);
  Do<A_yyyz>::go(c);
  Do<A_yyyw>::go(c);
  Do<A_yyzx>::go(c);
  Do<A_yyzy>::go(c);
  Do<A_yyzz>::go(c);
  Do<A_yyzw>::go(c);
  Do<A_yywx>::go(c);
  Do<A_yywy>::go(c);
  Do<A_yywz>::go(c);
  Do<A_yyww>::go(c);
  Do<A_yzxx>::go(c);
  Do<A_yzxy>::go(c);
  Do<A_yzxz>::go(c);
  Do<A_yzxw>::go(c);
  Do<A_yzyx>::go(c);
  Do<A_yzyy>::go(c);
  Do<A_yzyz>::go(c);
  Do<A_yzyw>::go(c);
  Do<A_yzzx>::go(c);
  Do<A_yzzy>::go(c);
  Do<A_yzzz>::go(c);
  Do<A_yzzw>::go(c);
  Do<A_yzwx>::go(c);
  Do<A_yzwy>::go(c);
  Do<A_yzwz>::go(c);
  Do<A_yzww>::go(c);
  Do<A_ywxx>::go(c);
  Do<A_ywxy>::go(c);
  Do<A_ywxz>::go(c);
  Do<A_ywxw>::go(c);
  Do<A_ywyx>::go(c);
  Do<A_ywyy>::go(c);
  Do<A_ywyz>::go(c);
  Do<A_ywyw>::go(c);
  Do<A_ywzx>::go(c);
  Do<A_ywzy>::go(c);
  Do<A_ywzz>::go(c);
  Do<A_ywzw>::go(c);
  Do<A_ywwx>::go(c);
  Do<A_ywwy>::go(c);
  Do<A_ywwz>::go(c);
  Do<A_ywww>::go(c);
  Do<A_zxxx>::go(c);
  Do<A_zxxy>::go(c);
  Do<A_zxxz>::go(c);
  Do<A_zxxw>::go(c);
  Do<A_zxyx>::go(c);
  Do<A_zxyy>::go(c);
  Do<A_zxyz>::go(c);
  Do<A_zxyw>::go(c);
  Do<A_zxzx>::go(c);
  Do<A_zxzy>::go(c);
  Do<A_zxzz>::go(c);
  Do<A_zxzw>::go(c);
  Do<A_zxwx>::go(c);
  Do<A_zxwy>::go(c);
  Do<A_zxwz>::go(c);
  Do<A_zxww>::go(c);
  Do<A_zyxx>::go(c);
  Do<A_zyxy>::go(c);
  Do<A_zyxz>::go(c);
  Do<A_zyxw>::go(c);
  Do<A_zyyx>::go(c);
  Do<A_zyyy>::go(c);
  Do<A_zyyz>::go(c);
  Do<A_zyyw>::go(c);
  Do<A_zyzx>::go(c);
  Do<A_zyzy>::go(c);
  Do<A_zyzz>::go(c);
  Do<A_zyzw>::go(c);
  Do<A_zywx>::go(c);
  Do<A_zywy>::go(c);
  Do<A_zywz>::go(c);
  Do<A_zyww>::go(c);
  Do<A_zzxx>::go(c);
  Do<A_zzxy>::go(c);
  Do<A_zzxz>::go(c);
  Do<A_zzxw>::go(c);
  Do<A_zzyx>::go(c);
  Do<A_zzyy>::go(c);
  Do<A_zzyz>::go(c);
  Do<A_zzyw>::go(c);
  Do<A_zzzx>::go(c);
  Do<A_zzzy>::go(c);
  Do<A_zzzz>::go(c);
  Do<A_zzzw>::go(c);
  Do<A_zzwx>::go(c);
  Do<A_zzwy>::go(c);
  Do<A_zzwz>::go(c);
  Do<A_zzww>::go(c);
  Do<A_zwxx>::go(c);
  Do<A_zwxy>::go(c);
  Do<A_zwxz>::go(c);
  Do<A_zwxw>::go(c);
  Do<A_zwyx>::go(c);
  Do<A_zwyy>::go(c);
  Do<A_zwyz>::go(c);
  Do<A_zwyw>::go(c);
  Do<A_zwzx>::go(c);
  Do<A_zwzy>::go(c);
  Do<A_zwzz>::go(c);
  Do<A_zwzw>::go(c);
  Do<A_zwwx>::go(c);
  Do<A_zwwy>::go(c);
  Do<A_zwwz>::go(c);
  Do<A_zwww>::go(c);
  Do<A_wxxx>::go(c);
  Do<A_wxxy>::go(c);
  Do<A_wxxz>::go(c);
  Do<A_wxxw>::go(c);
  Do<A_wxyx>::go(c);
  Do<A_wxyy>::go(c);
  Do<A_wxyz>::go(c);
  Do<A_wxyw>::go(c);
  Do<A_wxzx>::go(c);
  Do<A_wxzy>::go(c);
  Do<A_wxzz>::go(c);
  Do<A_wxzw>::go(c);
  Do<A_wxwx>::go(c);
  Do<A_wxwy>::go(c);
  Do<A_wxwz>::go(c);
  Do<A_wxww>::go(c);
  Do<A_wyxx>::go(c);
  Do<A_wyxy>::go(c);
  Do<A_wyxz>::go(c);
  Do<A_wyxw>::go(c);
  Do<A_wyyx>::go(c);
  Do<A_wyyy>::go(c);
  Do<A_wyyz>::go(c);
  Do<A_wyyw>::go(c);
  Do<A_wyzx>::go(c);
  Do<A_wyzy>::go(c);
  Do<A_wyzz>::go(c);
  Do<A_wyzw>::go(c);
  Do<A_wywx>::go(c);
  Do<A_wywy>::go(c);
  Do<A_wywz>::go(c);
  Do<A_wyww>::go(c);
  Do<A_wzxx>::go(c);
  Do<A_wzxy>::go(c);
  Do<A_wzxz>::go(c);
  Do<A_wzxw>::go(c);
  Do<A_wzyx>::go(c);
  Do<A_wzyy>::go(c);
  Do<A_wzyz>::go(c);
  Do<A_wzyw>::go(c);
  Do<A_wzzx>::go(c);
  Do<A_wzzy>::go(c);
  Do<A_wzzz>::go(c);
  Do<A_wzzw>::go(c);
  Do<A_wzwx>::go(c);
  Do<A_wzwy>::go(c);
  Do<A_wzwz>::go(c);
  Do<A_wzww>::go(c);
  Do<A_wwxx>::go(c);
  Do<A_wwxy>::go(c);
  Do<A_wwxz>::go(c);
  Do<A_wwxw>::go(c);
  Do<A_wwyx>::go(c);
  Do<A_wwyy>::go(c);
  Do<A_wwyz>::go(c);
  Do<A_wwyw>::go(c);
  Do<A_wwzx>::go(c);
  Do<A_wwzy>::go(c);
  Do<A_wwzz>::go(c);
  Do<A_wwzw>::go(c);
  Do<A_wwwx>::go(c);
  Do<A_wwwy>::go(c);
  Do<A_wwwz>::go(c);
  Do<A_wwww>::go(c);
}
