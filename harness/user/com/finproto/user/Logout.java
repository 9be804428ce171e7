package com.finproto.user;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.util.Objects;

/** A message that a user of the library wrote, with the name of one of the library's. */
public class Logout implements BinaryCodec {
  private int session;
  private String reason;

  public int getSession() {
    return session;
  }

  public void setSession(int session) {
    this.session = session;
  }

  public String getReason() {
    return reason;
  }

  public void setReason(String reason) {
    this.reason = reason;
  }

  @Override
  public void encode(ByteBuf b) {
    b.writeIntLE(session);
    writeFixedString(b, reason, 6);
  }

  @Override
  public void decode(ByteBuf b) {
    session = b.readIntLE();
    reason = readFixedString(b, 6);
  }

  @Override
  public int hashCode() {
    return Objects.hash(session, reason);
  }

  @Override
  public boolean equals(Object o) {
    return o != null
        && o.getClass() == Logout.class
        && session == ((Logout) o).session
        && Objects.equals(reason, ((Logout) o).reason);
  }

  @Override
  public String toString() {
    return "Logout [session=" + session + ", reason=" + reason + "]";
  }
}
