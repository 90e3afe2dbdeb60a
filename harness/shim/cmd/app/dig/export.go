package dig

import (
	"time"

	"github.com/mrasu/GravityR/infra/jaeger"
)

// VerifJaeger runs the command body of `app dig jaeger`.
func VerifJaeger(out string, cli *jaeger.Client, service string, durationMilli, threshold, count int, start, end time.Time, ui string) error {
	jr := jaegerRunner{
		serviceName:          service,
		durationMilli:        durationMilli,
		sameServiceThreshold: threshold,
		count:                count,
		start:                start,
		end:                  end,
		uiURL:                ui,
	}
	return jr.dig(out, cli)
}
