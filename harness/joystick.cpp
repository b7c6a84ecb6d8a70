// Joystick override of velocity commands and topic selection (joystick_interrupt, joystick_mux)
#include "pre.h"
#include <sxros/misc.h>
#define private public
#define protected public
#define main sx_main_interrupt
#include <joystick_interrupt/src/joystick_interrupt.cpp>
#undef main
#define main sx_main_mux
#include <joystick_interrupt/src/joystick_mux.cpp>
#undef main
#undef private
#undef protected
#include "sx.h"

typedef geometry_msgs::Twist Twist;
static std::vector<sxros::Sent<Twist>>& out() { return sxros::sent<Twist>(); }
static std::vector<sxros::Sent<std_msgs::Bool>>& status() { return sxros::sent<std_msgs::Bool>(); }
static bool same(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5; }
static bool same(const Twist& a, const Twist& b)
{
  return a.linear.x == b.linear.x && a.linear.y == b.linear.y && a.linear.z == b.linear.z && a.angular.x == b.angular.x && a.angular.y == b.angular.y && a.angular.z == b.angular.z;
}
static Twist twist()
{
  Twist t;
  t.linear.x = sx_f64("vx", -10, 10); t.linear.y = sx_f64("vy", -10, 10); t.angular.z = sx_f64("wz", -10, 10);
  return t;
}
static sensor_msgs::Joy::Ptr joy(int axes, int buttons)
{
  sensor_msgs::Joy::Ptr j(new sensor_msgs::Joy);
  for (int i = 0; i < axes; ++i) j->axes.push_back(sx_f32("axis", -1, 1));
  for (int i = 0; i < buttons; ++i) j->buttons.push_back(sx_int("button", 0, 1));
  return j;
}

// one joystick message: the command while the button is held
extern "C" void h_command()
{
  auto& I = sxros::params<int>();
  auto& D = sxros::params<double>();
  const int la = sx_param("la", 0), aa = sx_fork(sx_int("angular_axis", 0, 2));
  const int la2 = sx_fork(sx_int("linear_axis2", 0, 1)) ? 1 : -1, ya = sx_fork(sx_int("linear_y_axis", 0, 1)) ? 2 : -1;
  const int aa2 = sx_fork(sx_int("angular_axis2", 0, 1)) ? 2 : -1, ya2 = sx_fork(sx_int("linear_y_axis2", 0, 1)) ? 0 : -1;
  const int hb = static_cast<int>(sx_fork(sx_int("high_speed_button", -1, 1) + 1)) - 1;
  I["linear_axis"] = la; I["angular_axis"] = aa; I["linear_axis2"] = la2; I["linear_y_axis"] = ya; I["angular_axis2"] = aa2; I["linear_y_axis2"] = ya2; I["high_speed_button"] = hb; I["interrupt_button"] = 1;
  D["linear_vel"] = 0.5; D["angular_vel"] = 0.8; D["linear_y_vel"] = 0.25; D["linear_high_speed_ratio"] = 1.5; D["angular_high_speed_ratio"] = 1.25;
  JoystickInterrupt n;
  const int na = sx_fork(sx_int("axes", 0, 3)), nb = sx_fork(sx_int("buttons", 0, 3));
  const auto j = joy(na, nb);
  n.cbJoy(j);
  if (nb <= 1 || !j->buttons[1])
  {
    sx_check(out().empty(), "no command without the button");
    sx_reach("idle");
    return;
  }
  sx_check(out().size() == 1 && out()[0].topic == "cmd_vel", "one command per joystick message");
  auto axis = [&](int i) { return i >= 0 && i < na ? j->axes[i] : 0.0f; };
  auto stick = [&](int i, int k) { return std::fabs(axis(k)) > std::fabs(axis(i)) ? axis(k) : axis(i); };   // the one pushed further
  const float lx = stick(la, la2);
  const bool fast = hb >= 0 && hb < nb && j->buttons[hb];
  const double kl = fast ? 0.5 * 1.5 : 0.5, ky = fast ? 0.25 * 1.5 : 0.25, ka = fast ? 0.8 * 1.25 : 0.8;
  const Twist c = out()[0].msg;
  sx_check(same(c.linear.x, lx * kl), "forward speed");
  sx_check(same(c.linear.y, stick(ya, ya2) * ky), "sideways speed");
  sx_check(same(c.angular.z, stick(aa, aa2) * ka), "turning speed");
  sx_check(c.linear.z == 0 && c.angular.x == 0 && c.angular.y == 0, "no other motion");
  sx_reach("command");
}

// any sequence of joystick messages, input commands and time
extern "C" void h_override()
{
  sxros::params<int>()["interrupt_button"] = 0;
  sxros::params<double>()["timeout"] = 0.5;
  JoystickInterrupt n;
  const int K = sx_param("steps", 4);
  bool held = false;          // an override that has not been released
  int64_t since = 0;
  bool any = false;
  Twist last;
  for (int k = 0; k < K; ++k)
  {
    ros::Time::clock() += sx_s("dt", 64, 0, 1000000000);
    const int64_t now = ros::Time::clock();
    sx_assume(now - since != 500000000);
    out().clear(); status().clear();
    const int ev = sx_fork(sx_int("event", 0, 2));
    if (ev == 0)
    {
      last = twist();
      n.cbTwist(Twist::Ptr(new Twist(last)));
      const bool over = held && now - since < 500000000;
      sx_check(status().size() == 1 && status()[0].topic == "interrupt_status" && (status()[0].msg.data != 0) == !over, "the interrupt status tells who is in control");
      if (over) { sx_check(out().empty(), "the input is held back while the joystick is in control"); sx_reach("held back"); }
      else { sx_check(out().size() == 1 && same(out()[0].msg, last), "the input passes while the joystick is not in control"); sx_reach("passed"); }
    }
    else if (ev == 1)
    {
      sensor_msgs::Joy::Ptr j(new sensor_msgs::Joy);
      j->axes.push_back(sx_f32("a0", -1, 1)); j->axes.push_back(sx_f32("a1", -1, 1));
      const bool on = sx_fork(sx_int("pressed", 0, 1));
      j->buttons.push_back(on);
      n.cbJoy(j);
      if (on)
      {
        sx_check(out().size() == 1 && same(out()[0].msg.linear.x, j->axes[1] * 0.5) && same(out()[0].msg.angular.z, j->axes[0] * 0.8), "the joystick command is sent");
        held = true; since = now;
      }
      else
      {
        if (held) { sx_check(out().size() == 1 && same(out()[0].msg, last), "releasing the button hands control back to the input"); sx_reach("released"); }
        else sx_check(out().empty(), "nothing is sent without the button");
        held = false;
      }
    }
    else
    {
      n.cbJoy(sensor_msgs::Joy::Ptr(new sensor_msgs::Joy));
      sx_check(out().empty(), "a message without the button sends nothing");
      held = false;
    }
  }
  sx_reach("done");
}

// the joystick as a selector of topics
extern "C" void h_mux()
{
  sxros::params<int>()["interrupt_button"] = 1;
  sxros::params<double>()["timeout"] = 0.5;
  sxros::params<int>()["neonavigation_compatible"] = sx_fork(sx_int("compat", 0, 1));
  JoystickMux n;
  auto& sent = sxros::sent<topic_tools::ShapeShifter>();
  const int K = sx_param("steps", 4);
  int sel = 0;
  int64_t since = ros::Time::clock();
  for (int k = 0; k < K; ++k)
  {
    ros::Time::clock() += sx_s("dt", 64, 0, 1000000000);
    const int64_t now = ros::Time::clock();
    sx_assume(now - since != 500000000);
    sent.clear();
    const int ev = sx_fork(sx_int("event", 0, 3));
    if (ev < 2)
    {
      boost::shared_ptr<topic_tools::ShapeShifter> m(new topic_tools::ShapeShifter);
      m->id = 7 + k;
      n.cbTopic(m, ev);
      if (ev == sel) { sx_check(sent.size() == 1 && sent[0].msg.id == 7 + k, "the selected input is forwarded unchanged"); sx_reach("forwarded"); }
      else { sx_check(sent.empty(), "the other input is not forwarded"); sx_reach("dropped"); }
    }
    else if (ev == 2)
    {
      const int nb = sx_fork(sx_int("buttons", 1, 2));
      const auto j = joy(0, nb);
      n.cbJoy(j);
      if (nb == 2) { sel = sx_fork(j->buttons[1]); since = now; }
    }
    else
    {
      n.cbTimer(ros::TimerEvent());
      if (now - since > 500000000) { sel = 0; sx_reach("timeout"); }
    }
  }
}
